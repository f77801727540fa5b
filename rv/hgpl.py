"""Adapter to the public interface of the policy language implementation."""
from rv import hgplref as ref

from hgpl.lexing import Lexer, TokenType, Token
from hgpl.parsing import Parser
from hgpl.ast import ASTEncoder, ASTResult, ASTNode
from hgpl.semantics import TypeChecker, TypeCheckerResult
from hgpl.interpreting import Interpreter
from hgpl.symbols import SymbolTable, Symbol, SymbolType, SymbolTableBuilder
from hgpl.errors import HGPLError, LexerError, ParserError, TypeCheckerError, TypeCheckerWarning, InterpreterError, \
    InterpreterWarning, ErrorType

NODE_KIND = {'INT': 'int', 'FLOAT': 'float', 'STRING': 'str', 'NULL': 'null', 'LSET': 'set', 'BOOL': 'bool'}
ATT_TYPE = {ns: getattr(TokenType, t) for ns, t in ref.ATT_TOKEN.items()}


def tokens(text):
    lx = Lexer(text)
    lx.tokenize()
    return [tok(t) for t in lx.toke_list()]


def tok(t):
    return (t.type.name, t.value, t.pos)


def parse(text):
    return Parser(Lexer(text)).parse()


def to_tree(node):
    """Reference tree of an implementation tree, read through its public accessors (iteratively)."""
    out, todo = [], [(node, False)]
    while todo:
        n, done = todo.pop()
        kind, pos = n.ttype().name, n.tpos()
        kids = n.children()
        if kind in ('BOOL_OP', 'OP', 'NOT_OP'):
            if not done:
                todo.append((n, True))
                todo += [(k, False) for k in reversed(kids)]
                continue
            args = out[len(out) - len(kids):]
            del out[len(out) - len(kids):]
            want = 1 if kind == 'NOT_OP' else 2
            if len(args) != want:
                out.append(('malformed', kind, tuple(args), pos))
            elif kind == 'BOOL_OP':
                out.append((n.tvalue().lower(), args[0], args[1], pos))
            elif kind == 'OP':
                out.append(('op', n.tvalue(), args[0], args[1], pos))
            else:
                out.append(('not', args[0], pos))
        elif kind == 'LSET':
            out.append(('set', tuple(to_tree(k) for k in kids), pos))
        elif kids:
            out.append(('malformed', kind, len(kids), pos))
        elif kind in ref.TOKEN_ATT:
            out.append(('att', ref.TOKEN_ATT[kind], n.tvalue(), pos))
        elif kind == 'NULL':
            out.append(('null', None, pos))
        elif kind in NODE_KIND:
            out.append((NODE_KIND[kind], n.tvalue(), pos))
        else:
            out.append(('malformed', kind, None, pos))
    return out[0]


def same_tree(a, b):
    """Equality of reference trees that tells 1 from 1.0 and from True, iteratively."""
    todo = [(a, b)]
    while todo:
        x, y = todo.pop()
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return False
            todo += list(zip(x, y))
        elif type(x) is not type(y) or x != y:
            return False
    return True


def build_table(table):
    """Symbol table from {(ns, lower name): (type name, value)}"""
    st = SymbolTable()
    for (ns, name), (stype, value) in table.items():
        st.define(Symbol(name, ATT_TYPE[ns], getattr(SymbolType, stype), value))
    return st


def decide(node_or_parser, table, **kw):
    return Interpreter(node_or_parser, **kw).evaluate(build_table(table)).name


def outcome(fn):
    """('ok', value) or ('error', class name) of a call; only the language's own errors count as an outcome."""
    try:
        return ('ok', fn())
    except HGPLError as e:
        return ('error', type(e).__name__)
