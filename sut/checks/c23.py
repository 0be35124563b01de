"""the encoding of preprocessing settings: injective, parseable, invalid combinations rejected"""
import ref
from common import Skip, require, sut, sut_exc, call_text, api_kwargs, first_diff

DIGITS = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'


def config(c):
    from codeprep.api.common import create_prep_config
    kw = api_kwargs(c['mode'], c['opts'])
    kw.pop('append_eof', None)
    if c['mode'] == 'bpe':
        kw['bpe_codes_id'] = c['bpe']
    if c['mode'] == 'chars':
        kw['bpe_codes_id'] = '0'
    return sut(create_prep_config, c['mode'], **kw)


def meaning(c):
    """the settings as documented, independent of how they are written down"""
    o = api_kwargs(c['mode'], c['opts'])
    o.pop('append_eof', None)
    if c['mode'] == 'bpe':
        o['bpe'] = c['bpe']
    m = o.get('max_str_length')
    if o.get('no_str'):
        o.pop('max_str_length', None)
    elif m is not None:
        if m >= 62:
            o.pop('max_str_length')         # KF1: not distinguished from "no limit"
        else:
            o['max_str_length'] = max(2, m)
    if o.get('no_str') and c['mode'] == 'nosplit':
        pass
    return dict(o, mode=c['mode'])


def run(case):
    return {'pair': run_pair, 'raw': run_raw, 'limits': run_limits, 'learning': run_learning}[case['kind']](case)


def run_limits(case):
    """every length limit with the other options as given"""
    a = case['a']
    seen = {}
    for limit in [None] + list(range(2, 62)):
        o = {k: v for k, v in a['opts'].items() if k != 'max_str_length'}
        if limit is not None:
            o['max_str_length'] = limit
        c = dict(a, opts=o)
        s = str(config(c))
        m = meaning(c)
        require(s not in seen or seen[s] == m, 'settings %r and %r are both written as %r' % (seen.get(s), m, s))
        require(m in seen.values() or s not in seen, 'settings %r' % m)
        seen.setdefault(s, m)
    require(len(seen) == (1 if a['opts'].get('no_str') else 61), 'the limits of %r are written in %d ways' % (a, len(seen)))
    return {'nontrivial': len(seen) > 1, 'labels': ['all limits'], 'n': 61}


def run_pair(case):
    from codeprep.prepconfig import PrepConfig
    import codeprep.api.text as T
    a, b = case['a'], case['b']
    ca, cb = config(a), config(b)
    sa, sb = str(ca), str(cb)
    for s, c in ((sa, ca), (sb, cb)):
        back = sut(PrepConfig.from_encoded_string, s)
        require(back == c and str(back) == s, '%r does not read back' % s, c, back)
    same = meaning(a) == meaning(b)
    require((sa == sb) == same, 'settings %r and %r are written as %r and %r' % (meaning(a), meaning(b), sa, sb))
    require((ca == cb) == same, 'settings %r and %r compare %s' % (meaning(a), meaning(b), ca == cb))
    # the text pipeline driven by the re-read encoding does what the API call with the options does
    try:
        ref.tokens(case['text'], case['ext'])
    except ref.LexerFailure:
        raise Skip('the lexer itself fails')
    bpe_id = a['bpe'] if a['mode'] == 'bpe' else '0' if a['mode'] == 'chars' else None
    opts = dict(a['opts'])
    opts.pop('append_eof', None)
    direct = call_text(case['text'], case['ext'], a['mode'], opts, a['bpe'], meta=False)
    via = sut(T.preprocess, case['text'], PrepConfig.from_encoded_string(sa), bpe_id, extension=case['ext'])
    require(direct == via, 'settings %r encoded as %r act differently after reading them back' % (meaning(a), sa),
            first_diff(direct, via))
    return {'nontrivial': len(meaning(a)) >= 3, 'labels': ['same' if same else 'different', 'mode:' + a['mode']]}


VALID = ['uU', '0c', DIGITS, '0F123s456789', 's0', 'ul']


def run_raw(case):
    from codeprep.prepconfig import PrepConfig
    s = case['s']
    ok = len(s) == 6 and all(ch in v for ch, v in zip(s, VALID))
    if ok and s[5] == 'l':
        if s[3] in '0F45679':
            ok = False
        elif s[3] == '8':
            raise Skip('lower case with chars')
    c, e = sut_exc(PrepConfig.from_encoded_string, s)
    if ok:
        require(e is None, 'from_encoded_string(%r) raised %r' % (s, e))
        require(str(c) == s, 'from_encoded_string(%r) is written as %r' % (s, str(c)))
        require(c.is_bpe() == (s[3] in '456789'), 'is_bpe of %r' % s)
    else:
        require(isinstance(e, ValueError), 'the invalid settings %r are accepted or fail otherwise: %r' % (s, e or c))
    return {'nontrivial': ok, 'labels': ['valid' if ok else 'rejected']}


def run_learning(case):
    """settings of learned codes"""
    from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam
    from codeprep.prepconfig import PrepParam
    cs = []
    for d in case['configs']:
        p = {BpeParam.CASE: 'yes', BpeParam.WORD_END: d['end'], BpeParam.BASE: d['base'], BpeParam.UNICODE: d['unicode']}
        cs.append((d, p, sut(BpeConfig, p)))
    for d, p, c in cs:
        s = sut(c.to_suffix)
        back = sut(BpeConfig.from_suffix, s)
        require(back == BpeConfig(dict(p, **{BpeParam.BASE: 'code'})) and sut(back.to_suffix) == s, 'settings %r are written as %r, which reads back as %r' % (d, s, back))
        pc = sut(c.to_prep_config)
        require(pc.is_base_bpe_config() and not pc.is_bpe(), 'the corpus settings of %r are %s' % (d, pc))
        require(str(pc) == ('U' if d['unicode'] == 'no' else 'u') + '0EFsu', 'the corpus settings of %r are %s' % (d, pc))
        for e, q, o in cs:
            same = (d['end'], d['unicode']) == (e['end'], e['unicode'])
            require((s == o.to_suffix()) == same, 'settings %r and %r are written as %r and %r' % (d, e, s, o.to_suffix()))
            require((c == o) == (d == e), 'settings %r and %r compare wrongly' % (d, e))
    k = case['bad']
    if k is not None:
        params = dict(cs[0][1])
        key = list(BpeParam)[k['which']]
        if k['value'] is None:
            del params[key]
        elif k['value'] not in BpeConfig.possible_param_values[key]:
            params[key] = k['value']
        else:
            return {'nontrivial': True, 'labels': ['settings of learning']}
        v, e = sut_exc(BpeConfig, params)
        require(isinstance(e, ValueError), 'the invalid settings %r are accepted or fail otherwise: %r' % (params, e or v))
    return {'nontrivial': True, 'labels': ['settings of learning']}
