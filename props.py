"""Registry of properties: what is claimed, where it is anchored, which units and conformance programs decide it."""
TRUSTED = [
    'clang 18 front end (target wasm64, LP64) and opt always-inline/sroa/simplifycfg/early-cse as the extraction from the real headers to LLVM IR',
    'the irv verification-condition generator (/verif/irv) and its memory model (distinct pointer arguments do not alias)',
    'the ghost standard library in /verif/ghost (vector, deque, array, algorithm ...) standing for libstdc++',
    'z3 4.13+/5.x and cvc5',
]
ASSUME = ['container sizes are below 2^58; integer preconditions are the ones written in the contracts', 'functions passed as template arguments are pure and total']
PROPS = []
def prop(id, title, statement, over, qtext, why, files, mech, units, conf, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, units=units, conf=conf, **kw))

import props_list
NOT_APPLICABLE = props_list.NOT_APPLICABLE
BY_ID = {p['id']: p for p in PROPS}
NA = NOT_APPLICABLE
