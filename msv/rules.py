"""All rules, by property id."""
from . import rules_verify as V
from . import rules_sign as S
from . import rules_keys as K
from . import rules_misc as M
from . import rules_codec as E
from . import rules_text as X
from . import rules_flow as F
from . import rules_env as N
from . import rules_safe as A
from . import rules_ct as T
from . import rules_hash as H
from . import rules_curve as Q
from . import rules_round as O
RULES = {'C01': V.c01, 'C02': V.c02, 'C03': V.c03, 'C04': V.c04, 'C05': V.c05, 'C06': V.c06, 'C07': V.c07, 'C21': V.c21,
         'C08': K.c08, 'C09': K.c09, 'C10': K.c10, 'C11': K.c11, 'C22': K.c22, 'C12': K.c12, 'C25': K.c25, 'C20': M.c20, 'C14': S.c14, 'C15': S.c15,
         'C18': E.c18, 'C26': E.c26, 'C23': E.c23, 'C19': X.c19, 'C17': F.c17, 'C27': N.c27, 'C28': N.c28, 'C13': A.c13, 'C24': A.c24, 'C16': T.c16, 'C29': H.c29, 'C31': Q.c31, 'C30': O.c30, 'C32': O.c32, 'C33': O.c33, 'C34': E.c34, 'C35': X.c35, 'C36': M.c36}
