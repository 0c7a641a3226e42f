"""Round trip of a schema through a textual representation."""
import copy
import gen
import mc
from explore import call, same

HEAD = 'import json, jadn\n'


def roundtrip(rec, s, label, dumps, loads, src, label2=''):
    """meaning(loads(dumps(s))) == meaning(s); argument unchanged; writing the result again gives the same text"""
    rec.states.add(hash((label, repr(s), label2)))
    arg = copy.deepcopy(s)
    r, text = call(dumps, arg)
    rec.trans()
    why = got = None
    if r != 'ok':
        why = f'not written: {text}'
    elif not same(arg, s):
        why = 'argument modified'
    else:
        r, got = call(loads, text)
        rec.trans()
        if r != 'ok':
            why = f'not read back: {got}'
        else:
            try:
                a, b = gen.meaning(s), gen.meaning(got)
            except Exception as e:
                a, b = None, repr(e)
            if not same(a, b):
                why = 'read back as a different schema'
            else:
                r, again = call(dumps, got)
                rec.trans()
                if r != 'ok' or again != text:
                    why = 'writing the schema that was read gives another text'
                    got = again
    rec.outcome('lost' if why else 'roundtrip')
    if why:
        rec.fail(f'{label}{label2}|{s["types"]!r}|{s.get("info", "")!r}'[:500], {'schema': s, 'what': why, 'text': str(text)[:1500], 'got': repr(got)[:1500]},
                 f'{HEAD}s = {s!r}\n{src}\n')
        return None
    rec.trace()
    return text


def roundtrip_pack(rec, pack, label, dumps, loads, src, label2=''):
    """All schemas of a pack in one document; if that fails, one by one"""
    s, group = pack
    if len(group) > 1:
        probe = mc.Recorder()
        text = roundtrip(probe, s, label, dumps, loads, src, label2)
        if text is not None:
            rec.states |= {hash((label, repr(g), label2)) for g in group}
            rec.transitions += probe.transitions
            rec.traces += len(group)
            rec.outcomes['roundtrip'] = rec.outcomes.get('roundtrip', 0) + len(group)
            return text
        n = rec.nfails
        for g in group:
            roundtrip(rec, g, label, dumps, loads, src, label2)
        if rec.nfails > n:
            return None
    return roundtrip(rec, s, label, dumps, loads, src, label2)
