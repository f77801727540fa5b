import importlib

# property id -> module that registers its check
MODULES = {}
for _m, _ids in {
    'lang_front': ('C01', 'C02', 'C03'),
    'lang_eval': ('C04', 'C05', 'C06', 'C07'),
    'lang_codec': ('C08', 'C28'),
    'lang_types': ('C09', 'C10', 'C11'),
    'certs': ('C12', 'C13', 'C14', 'C15'),
    'svc_aa': ('C16', 'C17', 'C18'),
    'svc_pa': ('C19', 'C20', 'C21', 'C29'),
    'svc_admin': ('C22', 'C23', 'C24', 'C25', 'C26', 'C27'),
    'gui': ('C30',),
    'svc_wire': ('C32',),
    'gui_client': ('C31',),
}.items():
    for _i in _ids:
        MODULES[_i] = _m


def load(pid):
    importlib.import_module('rv.checks.' + MODULES[pid])
