"""Dispatch: property id -> analysis."""
import os
from load import Program

def run(prop, R, d):
    P = lambda c: Program(os.path.join(d, 'apiformes_%s.json' % c))
    if prop[0] in 'SN':
        import p_server, p_disp, p_topics, p_bm
        if prop == 'S20': return p_bm.S20(R, P('bm'))
        if prop == 'S15': p_bm.S15(R, P('bm'))
        if hasattr(p_topics, prop) and prop in ('S10', 'S11'): return getattr(p_topics, prop)(R, P('server_lib'))
        if hasattr(p_disp, prop): return getattr(p_disp, prop)(R, P('server_lib'))
        return getattr(p_server, prop)(R, P('server_lib'))
    import p_decode, p_wire, p_rules, p_text, p_acc
    for m in (p_decode, p_wire, p_rules, p_text, p_acc):
        if getattr(m, prop, None): return getattr(m, prop)(R, P('packet'))
    raise KeyError('no check for ' + prop)
