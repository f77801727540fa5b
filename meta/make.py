#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=observe))


prop('C01', 'Policy text is tokenised exactly as the language defines',
     'Every policy text is split into the tokens the language defines: each with the right kind, the right value and the '
     'position of its first character, ending in one end token, independent of spacing and keyword case. Text that '
     'contains something that is no token is rejected at that place, and no character is silently skipped or merged.',
     ['inputs'], 'all policy texts, including malformed ones',
     'the tests tokenise a few dozen fixed strings; the space of texts is infinite',
     ['hgpl/lexing.py', 'hgpl/tokens.py'], [('Lexer', 'hgpl/lexing.py')],
     'differential runtime monitor: token stream of the real lexer vs the renderer and a reference lexer',
     'Holds on the texts generated (policies rendered from random trees, their mutations, hostile text); trusts the reference '
     'lexer in rv/hgplref.py.', ['Lexer token list', 'stepwise token interface'])
prop('C02', 'A policy parses exactly when the grammar derives it, to its one tree',
     'A policy is accepted exactly when the grammar derives it, and then the parse tree is the one given by the grammar\'s '
     'precedence and associativity, with operands in order, constants with their values and nodes at their source positions. '
     'Redundant parentheses, spacing and keyword case do not change the tree.',
     ['inputs', 'programs'], 'all token sequences',
     'the tests parse a fixed list of policies and compare a few of the trees',
     ['hgpl/parsing.py', 'hgpl/ast.py'], [('Parser', 'hgpl/parsing.py')],
     'differential runtime monitor: real parse trees vs generating trees and a reference parser',
     'Holds on generated trees, mutated and shuffled token sequences; trusts the reference grammar in rv/hgplref.py.',
     ['parse tree through its accessors'])
prop('C03', 'Any input gives an answer or a language error that points into the text',
     'Lexing, parsing, type checking and evaluating any text ends and either succeeds or raises one of the policy language\'s '
     'own errors, never another exception. Every error or warning states a position inside the text (of a judged policy: where '
     'a token starts) and its excerpt is text from around that position, however the policy was handed over.',
     ['inputs'], 'all texts, including truncated, deeply nested, very long and non-ASCII ones',
     'the tests try a handful of malformed policies; hostile input is unbounded',
     ['hgpl/lexing.py', 'hgpl/parsing.py', 'hgpl/errors.py'], [('error classes', 'hgpl/errors.py')],
     'robustness monitor with line-count (termination) budget over hostile text',
     'Holds on the hostile texts generated; termination is judged by a budget of executed source lines, not by a clock.',
     ['exceptions raised', 'executed lines'])
prop('C04', 'Decisions follow the three-valued semantics of the policy language',
     'Evaluating a policy against a set of attributes gives TRUE, FALSE or UNDEF exactly as the three-valued logic and the '
     'comparison rules of the language define, for every operator, type of operand and missing, valueless or mistyped '
     'attribute. An access decision is positive only for TRUE; in strict mode a missing or mismatched operand is an error '
     'instead of UNDEF.',
     ['inputs', 'programs'], 'all policies and all attribute tables',
     'the tests evaluate some policies on some tables; operators times operand types times nesting is far larger',
     ['hgpl/interpreting.py', 'hgpl/ast.py', 'hgpl/symbols.py'], [('Interpreter', 'hgpl/interpreting.py')],
     'differential runtime monitor: real evaluator vs a reference three-valued interpreter',
     'Holds on generated policies and tables and on an enumeration of all operator/operand-type shapes; trusts the reference '
     'semantics in rv/hgplref.py.', ['evaluation result', 'warnings', 'errors in strict mode'])
prop('C05', 'Knowing less never turns a decision into its opposite',
     'If attributes are removed, emptied or become unusable, a decision stays what it was or becomes UNDEF; it never changes '
     'from TRUE to FALSE or from FALSE to TRUE. A comparison with an unknown operand is UNDEF.',
     ['inputs', 'programs'], 'all policies and all pairs of attribute tables of which one knows less',
     'no test compares decisions across tables',
     ['hgpl/interpreting.py', 'hgpl/symbols.py', 'hgpl/ast.py'], [('UNDEF propagation', 'hgpl/interpreting.py')],
     'metamorphic runtime monitor over pairs of executions', 'Holds on generated pairs; no reference model takes part.',
     ['pairs of evaluation results'])
prop('C06', 'Evaluation is repeatable and leaves no trace',
     'Evaluating a policy any number of times, with changing attribute tables and by any number of evaluators, and mixed with '
     'type checking, printing and encoding, gives each time the answer and the warnings a fresh evaluation would give. '
     'Attribute tables are not changed by evaluation.',
     ['histories'], 'all histories of evaluations and other uses of a parsed policy',
     'the tests evaluate each policy once or twice with one evaluator',
     ['hgpl/interpreting.py', 'hgpl/ast.py', 'hgpl/symbols.py'], [('result reset', 'hgpl/interpreting.py')],
     'history monitor: every answer of a long run vs a fresh evaluation; snapshots of tables',
     'Holds on generated histories.', ['evaluation results', 'warning lists', 'table contents'])
prop('C07', 'Policies that mean the same decide the same',
     'Policies related by a law of the logic or of the notation (double negation, De Morgan, commutativity, associativity, '
     'distribution, mirrored or negated comparisons, order and repetition of set elements, spacing, case, parentheses, '
     'renaming, unrelated attributes) get the same decision on every attribute table.',
     ['inputs', 'programs'], 'all policies, laws and tables',
     'no test compares equivalent policies',
     ['hgpl/interpreting.py', 'hgpl/parsing.py', 'hgpl/ast.py'], [('operator evaluation', 'hgpl/interpreting.py')],
     'metamorphic runtime monitor over equivalent policies', 'Holds on generated pairs; no reference model takes part.',
     ['pairs of evaluation results'])
prop('C08', 'A policy survives its binary encoding unchanged',
     'Encoding a parsed policy and decoding it gives a policy with the same operators, operands, values of the same types and '
     'positions, the same decisions and the same encoding again. Encoding depends on the policy alone and leaves it '
     'unchanged, what cannot be represented is refused, and cut-off encodings do not decode.',
     ['inputs', 'histories'], 'all policies within the format\'s limits, all earlier uses of the process',
     'the tests encode a few policies; numbers, strings and node counts are unbounded',
     ['hgpl/ast.py'], [('encode/decode', 'hgpl/ast.py')],
     'round-trip monitor on the real codec with structural comparison',
     'Holds on generated policies, with sizes and numbers drawn around powers of two and the source\'s own constants.',
     ['decoded tree through its accessors', 'encoded bytes'])
prop('C09', 'The type checker reports exactly the type errors of a policy',
     'For every policy the type checker reports exactly the comparisons whose operand types do not fit, each with the right '
     'severity and source position, infers attribute types consistently, and gives the overall result that follows. In '
     'strict mode it refuses exactly the policies with such findings; the policy is not changed.',
     ['programs'], 'all policies', 'the tests check a fixed list of policies',
     ['hgpl/semantics.py', 'hgpl/symbols.py', 'hgpl/errors.py'], [('TypeChecker', 'hgpl/semantics.py')],
     'differential runtime monitor: real type checker vs reference rules',
     'Holds on generated policies and an enumeration of operator/operand-type shapes; trusts the reference rules.',
     ['issues', 'inferred types'])
prop('C10', 'What the type checker passes evaluates without type problems',
     'A policy that the type checker passes, evaluated on attributes of the inferred types, gives a definite answer without '
     'warnings, except where an attribute is compared with NULL or its type does not suit the operator (which the checker '
     'does not look at for attributes in ordered comparisons, IN and SUBSET). A comparison of constants that it rejects never evaluates to a definite answer, except membership of a set '
     'constant.',
     ['programs', 'inputs'], 'all policies and matching attribute tables',
     'tests treat type checker and evaluator separately',
     ['hgpl/semantics.py', 'hgpl/interpreting.py'], [('TypeChecker and Interpreter agree', 'hgpl/semantics.py')],
     'agreement monitor between type checker and evaluator', 'Holds on generated policies; neither side is a model.',
     ['type checker result', 'evaluation result and warnings'])
prop('C11', 'Symbol tables keep what was put in, apart by namespace, without regard to case',
     'A symbol table returns for each qualified name, in any case, exactly the type and value last given to it. Defining a '
     'name twice is refused, unknown names are reported as unknown, namespaces do not mix, and operations on one table never '
     'affect another.',
     ['histories'], 'all histories of operations on tables and builders',
     'the tests run short fixed sequences',
     ['hgpl/symbols.py'], [('SymbolTable, SymbolTableBuilder', 'hgpl/symbols.py')],
     'model-based history monitor (dictionary model)', 'Holds on generated histories; trusts the dictionary model.',
     ['results of table operations'])
prop('C12', 'A certificate survives export and import in every format unchanged',
     'Exporting an attribute certificate as bytes, base64 or armoured base64 and importing it gives an equal certificate with '
     'every field as it was, and the exported bytes follow the documented layout. Importing leaves its input alone, refuses '
     'trailing bytes, and no cut-off export gives a certificate that verifies; the text form states every field.',
     ['inputs'], 'all certificates (any text, bytes, counts and numbers the format can hold)',
     'the tests use a few certificates with short ASCII fields',
     ['hgaa/attcert.py'], [('encode/decode of parts', 'hgaa/attcert.py')],
     'round-trip monitor plus independent reader of the format',
     'Holds on generated certificates; trusts the independent reader in rv/certgen.py.',
     ['exported bytes', 'fields of imported certificates'])
prop('C13', 'A certificate verifies only as its issuer signed it',
     'A certificate verifies exactly when it bears a signature made over its present content with the private key that '
     'belongs to the issuer key it names. Any change of a field or byte of the signed content or of the signature, another '
     'key, a missing or malformed signature or key makes verification fail, also when verification happens during import. '
     'The label naming the signature algorithm is not covered by the signature.',
     ['inputs'], 'all certificates, keys and alterations',
     'the tests sign and alter a few certificates',
     ['hgaa/attcert.py'], [('sign / verify_signature', 'hgaa/attcert.py')],
     'tamper monitor: verification outcome over systematic and random alterations',
     'Holds on the alterations tried (every field, sampled or all bytes); cryptography itself is trusted.',
     ['verification result', 'import with verification'])
prop('C14', 'A certificate is valid strictly between its bounds and at no other time',
     'A certificate is valid at an instant exactly when the instant lies strictly after its start and strictly before its '
     'end, in any time zone and with the present time as the default instant. Where bounds, issue time or serial are not '
     'given, validity runs one day from now, issue time is now, and serials are fresh 160-bit numbers.',
     ['inputs', 'configurations'], 'all periods, instants and time zones',
     'the tests try a few instants far from the bounds',
     ['hgaa/attcert.py'], [('verify_time', 'hgaa/attcert.py')],
     'boundary monitor on the validity decision, also against the running clock',
     'Holds on generated windows and instants; clock cases are judged only if the second did not change meanwhile.',
     ['validity answer'])
prop('C15', 'Certificates are equal exactly when they state the same',
     'Two certificates compare equal exactly when all their fields are the same, attributes and extensions being compared '
     'without regard to order but with regard to repetition; inequality is the opposite, and equality is symmetric and '
     'reflexive.',
     ['inputs'], 'all pairs of certificates', 'the tests compare a few pairs',
     ['hgaa/attcert.py'], [('__eq__', 'hgaa/attcert.py')],
     'equality monitor against field-wise multiset comparison', 'Holds on generated pairs.', ['== and !='])
prop('C16', 'Only the account\'s current password gets a certificate',
     'The attribute authority issues a certificate exactly when the request names an existing account (in any case) with '
     'its current password under the configured pepper. Every other request is refused with a fault that does not tell an '
     'unknown account from a wrong password, issues and stores no certificate and changes no data, also under concurrent '
     'requests and after passwords or accounts changed.',
     ['inputs', 'histories', 'schedules', 'configurations'], 'all accounts, credentials, histories of changes and interleavings of requests',
     'there are no tests of the services',
     ['hgaa/services/aauth.py'], [('attribute_request', 'hgaa/services/aauth.py')],
     'runtime monitor on the real service with hostile credentials, changing accounts and concurrent requests',
     'Holds on the requests generated; the web framework is a stand-in that passes calls through; bcrypt is trusted.',
     ['answers', 'issued files', 'database contents'])
prop('C17', 'A certificate carries exactly the holder\'s own requested attributes',
     'A certificate carries, besides connection attributes, exactly the attributes currently assigned to the authenticated '
     'account that were asked for by identifier or name, or all of them if none were named, each with its assigned value '
     '(or none), type and name. Asking for any attribute not assigned is refused and issues nothing; concurrent requests of other '
     'accounts never leak in.',
     ['inputs', 'histories', 'schedules'], 'all assignments, requests, histories of changes and interleavings',
     'there are no tests of the services',
     ['hgaa/services/aauth.py'], [('attribute selection', 'hgaa/services/aauth.py')],
     'runtime monitor: certificate contents vs the database model, sequential and concurrent',
     'Holds on the requests generated; names in another case or with blanks may be refused or normalised.',
     ['issued certificates read by an independent reader'])
prop('C18', 'An issued certificate states the truth about issuer, holder, time and connection',
     'Every issued certificate is signed with the authority\'s key, names the configured authority as issuer and the '
     'authenticated account with the key it presented as holder, is valid from its issue (the time of the request) for the '
     'configured time, has a serial never used before, and states exactly the connection attributes that follow from the '
     'request, the clock (UTC) and the configuration. The answer equals the stored certificate, and the authority\'s '
     'description of itself agrees with it.',
     ['inputs', 'configurations', 'schedules'], 'all configurations, accounts, addresses, keys, times and interleavings',
     'there are no tests of the services',
     ['hgaa/services/aauth.py'], [('_make_ac, _make_con_att_set, info', 'hgaa/services/aauth.py')],
     'runtime monitor: every field of issued certificates recomputed independently',
     'Holds on the requests generated, at the time of the run.', ['issued certificates', 'stored files', 'info answers'])
prop('C19', 'A session starts only on certificates that are all genuine, trusted and in date',
     'The policy authority starts a session exactly when the certificate set is not empty and every certificate is of a '
     'supported version and format, verifies, names as issuer an authority that is currently known with positive trust and '
     'whose registered key is the one that signed, and is valid now. Otherwise the request is refused and the database is '
     'as before.',
     ['inputs', 'histories', 'schedules'], 'all certificate sets, trust histories and interleavings',
     'there are no tests of the services',
     ['hgaa/services/pauth.py', 'hgaa/attcert.py'], [('_check_cert, start_session', 'hgaa/services/pauth.py')],
     'runtime monitor on the real service with one defect planted per certificate set',
     'Holds on the sets generated; the web framework is a stand-in.', ['answers', 'database contents'])
prop('C20', 'Sessions are recorded exactly, once, and end with their certificates',
     'Each started session gets a fresh 160-bit identifier, starts now, and ends at the earlier of one '
     'day and the first end of its certificates; the database then holds exactly one row per session, one unaltered copy '
     'with its hash per distinct certificate, and one link per certificate of each session, whatever certificates are shared, '
     'repeated or used again. A different certificate under a serial already in use is refused and changes nothing, '
     'and a session that cannot be recorded completely leaves nothing recorded.',
     ['histories', 'schedules'], 'all histories and interleavings of session starts',
     'there are no tests of the services',
     ['hgaa/services/pauth.py', 'hgaa/schema/pauth.py'], [('start_session', 'hgaa/services/pauth.py')],
     'offline audit of the database against the log of answers (exactly-once, conservation), sequential and concurrent',
     'Holds on generated histories; two simultaneous requests introducing the same certificate are excluded.',
     ['answers', 'database contents'])
prop('C21', 'The policy authority describes itself and its known authorities truthfully',
     'The policy authority\'s description states its configured name, identifier, address and versions, and its list of '
     'attribute authorities is exactly the current contents of its database.',
     ['configurations', 'histories'], 'all configurations and database contents',
     'there are no tests of the services',
     ['hgaa/services/pauth.py'], [('info, trusted_attribute_authorities', 'hgaa/services/pauth.py')],
     'runtime monitor: answers vs configuration and database', 'Holds on generated configurations and tables.', ['answers'])
prop('C22', 'Settings and logs follow the configuration files',
     'A setting reads, in any case of its name and section, as its value in its own section, else in the default section, '
     'else as the built-in default, else as absent, for services and clients separately. Loggers take the configured name, '
     'level, format, file and start mode, and level names mean the levels they name.',
     ['configurations'], 'all configuration files and look-ups',
     'there are no tests of configuration',
     ['hgaa/config.py', 'hgaa/log.py'], [('get_conf, make_logger', 'hgaa/config.py, hgaa/log.py')],
     'model-based monitor on generated configuration files', 'Holds on generated files and on the shipped ones.',
     ['looked-up values', 'log files'])
prop('C23', 'Database tools change exactly what they name, wholly or not at all',
     'Building creates exactly the tables of the named services and keeps existing data; populating adds exactly the given '
     'rows, after emptying only that service\'s tables if asked to; generating attributes adds exactly those. A step that '
     'fails adds and removes nothing, no step touches another service\'s database, and each service uses the database its configuration '
     'names.',
     ['histories', 'configurations', 'fault_sequences'], 'all histories of database commands, failing ones included, and configurations',
     'there are no tests of the database code',
     ['hgaa/database.py', 'hgaa/tools.py', 'hgaa/schema'], [('populate_db, build_database, get_engine', 'hgaa/database.py')],
     'audit of real databases after every step of generated histories', 'Holds on generated histories with SQLite files; MySQL '
     'only as far as the connection address.', ['database files read with plain SQL', 'engine addresses'])
prop('C24', 'Secrets do not leak into logs, faults, answers or certificates',
     'No password (right or wrong), pepper, key passphrase, database password or private key appears, plain or simply encoded, '
     'in any log at any level, in any fault or answer, or in any certificate or generated key file of the services, clients '
     'and tools.',
     ['inputs', 'configurations'], 'all requests, outcomes and configurations',
     'no test looks at logs or answers',
     ['hgaa/log.py', 'hgaa/database.py', 'hgaa/services', 'hgaa/clients', 'hgaa/tools.py'],
     [('what is logged and answered', 'hgaa/services/aauth.py')],
     'taint-style log monitor: all log records and answers scanned for distinctive secrets',
     'Holds on the flows run; bcrypt hashes are not treated as secrets, and the password command prints its argument by '
     'design.', ['log records', 'answers', 'files'])
prop('C25', 'Clients send what was asked and hand back what came',
     'The clients send exactly one call to the configured service with the given or configured credentials, the requested '
     'attributes or certificates and the public half only of the given or freshly generated key, and return the answer '
     'unchanged. Error statuses and faults are raised; the remembered key is the one of the last successful request. '
     'Changing the service sends the following calls there; a change that fails leaves the client with the service it had.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'], 'all configurations, requests and answers, errors included',
     'there are no automatic tests of the clients',
     ['hgaa/clients/aauth.py', 'hgaa/clients/pauth.py'], [('attribute_request, start_session', 'hgaa/clients')],
     'recording transport monitor, and clients joined to the real services end to end',
     'Holds on generated calls; the transport is a stand-in.', ['calls sent', 'values returned', 'remembered key'])
prop('C26', 'Key, password and database commands do what they name, and wrong ones nothing',
     'A generated key file holds a fresh private key of the requested size that opens only with the given passphrase and works '
     'for the authority; a generated password hash opens for exactly that password at that service. Commands build, populate '
     'and generate exactly what they name; malformed commands fail and change nothing.',
     ['inputs', 'configurations'], 'all arguments', 'there are no tests of the tools',
     ['hgaa/tools.py'], [('gen_aauth_key, command line', 'hgaa/tools.py')],
     'runtime monitor on the real tools in forked processes and scratch files', 'Holds on generated arguments.',
     ['key files', 'printed hashes', 'database files'])
prop('C27', 'The server offers exactly the enabled services',
     'The server offers exactly the services that are enabled in the configuration, each existing under its name in the '
     'services directory, and logs at the configured level. Run as a program it listens at the configured host and port, and '
     'nowhere else, and hands every request to them.',
     ['configurations'], 'all combinations of settings', 'there are no tests of the server',
     ['hgaa/handler.py', 'hgaa/services/__init__.py'], [('handler', 'hgaa/handler.py')],
     'runtime monitor on the real module in fresh processes', 'Holds on generated settings; the framework is a stand-in.',
     ['arguments to the framework'])
prop('C28', 'Policies handled at the same time do not disturb each other',
     'Lexing, parsing, type checking, encoding, decoding and evaluating different policies at the same time in different '
     'threads gives each the result it gets alone.',
     ['schedules'], 'all interleavings of independent policies', 'the tests are single-threaded',
     ['hgpl/lexing.py', 'hgpl/parsing.py', 'hgpl/ast.py', 'hgpl/semantics.py', 'hgpl/interpreting.py'],
     [('no shared state between instances', 'hgpl')],
     'controlled thread schedules at source lines, each result vs the result alone',
     'Holds on the schedules run; one shared parsed policy evaluated by several threads at once is not claimed.',
     ['results per thread', 'switch sequences'])
prop('C29', 'Services keep answering: requests give their database connections back',
     'Any number of requests in any mix of outcomes, one after the other or at once, is answered with the outcome each '
     'deserves; database connections do not pile up with answered, refused or failed requests, and a database that failed '
     'serves the next request again.',
     ['histories', 'schedules'], 'all sequences and interleavings of requests',
     'there are no tests of the services',
     ['hgaa/services/aauth.py', 'hgaa/services/pauth.py', 'hgaa/database.py'], [('session per request', 'hgaa/services')],
     'resource monitor: connection pool events counted over long and concurrent runs',
     'Holds on runs of some hundred requests with the cyclic garbage collector off.', ['pool events', 'answers'])

prop('C30', 'The demonstration window shows what the engine computes, step by step',
     'In the demonstration window each step (tokenise, parse, type check, interpret) shows exactly what the engine gives for '
     'the policy chosen with the attribute values shown: the token list, the tree and its results, the symbols, every error '
     'and warning, and the decision. A step is offered exactly when the one before it succeeded (interpreting after a type '
     'check without errors, and then again and again), and the policy cannot be changed until the window is reset. An '
     'attribute value that is entered is the one shown and the one that decides from then on; entering something that is no '
     'value of its type, or submitting what stands there, changes nothing. Reset returns to the start and keeps the attributes.',
     ['inputs', 'histories'], 'all policies, attribute values and orders of pressing and editing',
     'there are no tests of the window',
     ['hgpl/gui/demos.py'], [('steps and attribute editing', 'hgpl/gui/demos.py')],
     'runtime monitor: the real window code operated on an in-memory window system; what it shows is compared with the engine',
     'Holds on random histories of presses and edits; trusts the stand-in for tkinter in rv/tk.py and the engine itself (C01-C11).',
     ['widgets: lists, trees, console, buttons, dialogs'])

prop('C31', 'The client window asks for what is entered and shows what came back',
     'In the attribute authority client window a request goes to the service entered, with the account and password entered, '
     'the attribute names and identifiers listed and the public half of the key shown (a fresh key if none is shown). A '
     'certificate that comes back is shown exactly, as bytes, text, base64 and tree, together with the private key it was '
     'requested with; the verification shown belongs to the certificate shown and is TRUE exactly if its signature is valid. A '
     'request that fails shows why and leaves the certificate, key and lists as they were. Reset clears what was entered and '
     'returns to the configured service.',
     ['inputs', 'histories', 'fault_sequences'], 'all entries, answers, failures and orders of pressing',
     'there are no tests of the window',
     ['hgaa/clients/demos/aauth.py', 'hgaa/clients/aauth.py'], [('AAuthDemoFrame', 'hgaa/clients/demos/aauth.py')],
     'runtime monitor: the real window code operated on an in-memory window system and a recording transport; calls sent and '
     'everything shown are compared with what was entered and received',
     'Holds on random histories; trusts the stand-ins for tkinter (rv/tk.py) and for the Ladon client.',
     ['calls sent', 'widgets: fields, lists, tree, texts, label'])
prop('C32', 'Clients and services fit each other through the published interface',
     'Every call the clients make fits the interface the services publish (methods, argument and field names, types), and so '
     'does every answer: each published field arrives with a value of its type, and nothing is lost or added on the way. A '
     'request sent through a client gets over that interface the certificate, session, description or list it deserves at the '
     'service, or its refusal; a request that lacks a required value is refused and changes nothing.',
     ['inputs', 'histories'], 'all requests, databases and outcomes',
     'there are no tests that join clients and services',
     ['hgaa/services/aauth.py', 'hgaa/services/pauth.py', 'hgaa/clients/aauth.py', 'hgaa/clients/pauth.py'],
     [('declared types and methods', 'hgaa/services/aauth.py, hgaa/services/pauth.py'), ('calls', 'hgaa/clients')],
     'runtime monitor on the wire: real clients and services joined by a stand-in framework that enforces the declarations',
     'Holds on generated requests; trusts the stand-in for the Ladon framework.', ['calls and answers as JSON', 'databases', 'certificates'])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [{'property': p['id'], 'quick_cmd': './run.py %s' % p['id'],
                    'thorough_cmd': 'VERIF_TIER=thorough ./run.py %s' % p['id'], 'technique': p['technique'],
                    'level': 'exploration', 'level_note': p['note']} for p in sorted(P, key=lambda p: p['id'])],
        'not_applicable': [],
        'notes': 'No hooks in /repo: instrumentation is attached from outside (sys.monitoring line events, SQLAlchemy pool '
                 'events, log handlers, a stand-in for the absent web framework). Known findings and fixed defects: '
                 'known-findings.txt.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
