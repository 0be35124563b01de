"""totality, determinism, independence of history.  A pristine process image (forked when this module is first imported,
before any call of the code under test) answers single calls; the serving process keeps its whole history."""
import json
import os

import ref
from common import Skip, HarnessError, require, call_text, first_diff, sut_exc, Violation
from checks._text import api_opts, mode_label

import fsutil as fs
import learn

TRAINING = {'one': 'int getName ( setName , theValue ) = oneValue + lalala ; return getValue ( name , value ) ;\n' * 2,
            'two': 'lalala alala value eulav names namely getter setter ValueOf ; x_1 x_2 ünü ; valuable\n' * 3}


def _learn():
    """two sets of own codes, learned in a child: this process stays pristine"""
    fs.reset_home()
    for name, text in sorted(TRAINING.items()):
        root = os.path.join(os.environ['HOME'], 'c09', name)
        fs.plant(root, [{'path': ['a.java'], 'data': text}])
        fs.set_times(root, 1300000000)
        for n in (12, 30):
            o = fs.isolated(lambda: learn.run_command(learn.learn_command(root, n, codes_id=name if n == 12 else None)), ncpu=1)
            if o.status != 'ok':
                return 'own codes cannot be learned: ' + o.text
    return None


_learning = _learn()
_loaded = None           # whose subword data this process used last

_req_r, _req_w = os.pipe()
_res_r, _res_w = os.pipe()


def _do(c):
    global _loaded
    needs = c['bpe'] if c['mode'] == 'bpe' else '0' if c['mode'] == 'chars' else None
    extra = {}
    if c.get('keep') and c['mode'] == 'bpe' and _loaded in (None, needs):
        extra['force_reinit_bpe_data'] = False
    _loaded = needs or _loaded
    t, m = call_text(c['text'], c['ext'], c['mode'], api_opts(c['mode'], c['opts']), c['bpe'], **extra)
    result = [list(t), list(m.word_boundaries), [x.__name__ for x in m.token_types], sorted(m.nonprocessable_tokens)]
    del t[:]                 # what a caller does with its result must not matter
    del m.word_boundaries[1:]
    m.token_types.append(None)
    m.nonprocessable_tokens.clear()
    return result


def _zygote():
    os.close(_req_w)
    os.close(_res_r)
    inp = os.fdopen(_req_r, 'r', encoding='utf-8')
    import codeprep.api.text   # loaded, never called here
    for line in inp:
        c = json.loads(line)
        pid = os.fork()
        if pid == 0:
            try:
                out = {'r': _do(c)}
            except Violation as e:
                out = {'v': str(e)}
            except BaseException as e:
                out = {'h': repr(e)}
            data = (json.dumps(out) + '\n').encode()
            while data:
                data = data[os.write(_res_w, data):]
            os._exit(0)
        os.waitpid(pid, 0)
    os._exit(0)


if os.fork() == 0:
    try:
        _zygote()
    finally:
        os._exit(1)
os.close(_req_r)
os.close(_res_w)
_inp = os.fdopen(_res_r, 'r', encoding='utf-8')


def fresh_answer(c):
    data = (json.dumps(c) + '\n').encode()
    while data:
        data = data[os.write(_req_w, data):]
    line = _inp.readline()
    if not line:
        raise HarnessError('the pristine process ended')
    o = json.loads(line)
    if 'h' in o:
        raise HarnessError(o['h'])
    if 'v' in o:
        raise Violation('in a fresh process: ' + o['v'])
    return o['r']


def run(case):
    calls = case['calls']
    require(_learning is None, _learning)
    for c in calls:
        try:
            ref.tokens(c['text'], c['ext'])
        except ref.LexerFailure:
            raise Skip('the lexer itself fails')
    outs = [_do(c) for c in calls]
    for k in case['again']:
        c = calls[k % len(calls)]
        o = _do(c)
        require(o == outs[k % len(calls)], 'the same call gives another result later: %r' % (c,),
                first_diff(o[0], outs[k % len(calls)][0]), o[1:], outs[k % len(calls)][1:])
    k = case['probe'] % len(calls)
    f = fresh_answer(calls[k])
    require(f == outs[k], 'the result of %r depends on the calls made before it (fresh process: first, in history: second)'
            % (calls[k],), first_diff(f[0], outs[k][0]), f[1:], outs[k][1:])
    modes = {c['mode'] + (c['bpe'] if c['mode'] == 'bpe' else '') for c in calls}
    return {'nontrivial': len(modes) >= 2 and len(calls[k]['text']) > 3,
            'labels': ['calls:%d' % len(calls), 'probe ' + mode_label(calls[k])] +
                      (['own codes'] if calls[k]['mode'] == 'bpe' and '-' in calls[k]['bpe'] else []) + (['several subword vocabularies'] if len([m for m in modes if m[:3] in ('bpe', 'cha')]) > 1 else [])}
