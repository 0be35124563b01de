"""the command line gives what the Python API gives for the corresponding options"""
import ast
import contextlib
import io
import logging
import os
import shutil

import learn
import spiral_stub
from common import Skip, Violation, fresh, require, short, wipe, call_text, first_diff
import fsutil as fs
from checks._text import nodes_of
from checks.c18 import read_results

spiral_stub.install()

FLAGS = {'no_spaces': ('--no-spaces', '0'), 'no_unicode': ('--no-unicode', 'U'), 'no_com': ('--no-com', 'C'), 'no_str': ('--no-str', 'S'),
         'full_strings': ('--full-strings', 'f'), 'no_case': ('--no-case', 'l'), 'split_numbers': ('--split-numbers', 'n'),
         'ronin': ('--ronin', 'r'), 'stem': ('--stem', 's'), 'calc_vocab': ('--calc-vocab', 'V'), 'verbose': ('--verbose', 'v')}
ALLOWED = {'nosplit': ('no_spaces', 'no_unicode', 'no_com', 'no_str', 'full_strings'), 'chars': ('no_spaces', 'no_unicode', 'no_com', 'no_str'),
           'basic': ('no_spaces', 'no_unicode', 'no_com', 'no_str', 'no_case', 'split_numbers', 'ronin', 'stem'),
           'bpe': ('no_spaces', 'no_unicode', 'no_com', 'no_str')}


def normalize(mode, opts):
    """options of the API that can be given on the command line"""
    o = {k: v for k, v in opts.items() if k in ALLOWED[mode] and v}
    if 'no_str' in o:
        o.pop('full_strings', None)
    elif opts.get('max_str_length') is not None:
        o['max_str_length'] = opts['max_str_length']
    return o


def spell(name, value, long, short_, form):
    return [[long, value], [long + '=' + value], [short_, value], [short_ + value]][form % 4]


def arguments(mode, bpe_id, o, ext, extra, style, positional):
    """argv without the command, in the order and the spelling given by `style`"""
    flags = [k for k in o if k in FLAGS] + extra
    if mode == 'basic':
        if 'stem' in flags:
            flags = sorted(set(flags) | {'ronin', 'split_numbers'})
        elif 'ronin' in flags:
            flags = sorted(set(flags) | {'split_numbers'})
    items = []
    shorts = []
    for i, k in enumerate(flags):
        f = style['forms'][i % len(style['forms'])]
        if f % 3 == 0:
            items.append([FLAGS[k][0]])
        elif f % 3 == 1:
            items.append(['-' + FLAGS[k][1]])
        else:
            shorts.append(FLAGS[k][1])
    if shorts:
        items.append(['-' + ''.join(shorts)])
    if 'max_str_length' in o:
        items.append(spell('L', str(o['max_str_length']), '--max-str-length', '-L', style['forms'][0]))
    if ext:
        items.append(spell('e', ext, '--ext', '-e', style['forms'][1]))
    if positional[0] == 'text':
        items.append([positional[1]])
    else:
        items.append(spell('p', positional[1], '--path', '-p', style['forms'][2]))
        if positional[2]:
            items.append(spell('o', positional[2], '--output-path', '-o', style['forms'][0]))
    order = [style['order'][i % len(style['order'])] * 100 + i for i in range(len(items))]
    items = [x for _, x in sorted(zip(order, items))]
    head = [mode] + ([bpe_id] if mode == 'bpe' else [])
    return head + [a for it in items for a in it]


def command_line(argv):
    from codeprep.cli.spec import parse_and_run
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            parse_and_run(argv)
    except SystemExit as e:
        raise Violation('the command line %r is refused: %s' % (argv, short(str(e.code))))
    finally:
        logging.disable(logging.CRITICAL)
    return out.getvalue()


def check_text(argv, got, tokens):
    try:
        got = ast.literal_eval(got)
    except (ValueError, SyntaxError):
        raise Violation('%r does not print a list: %s' % (argv, short(got)))
    require(got == tokens, '%r prints other tokens than the API returns' % (argv,), 'printed  ' + short(got, 1000),
            'returned ' + short(tokens, 1000), first_diff(got, tokens))


def text_ok(text):
    return not text.startswith('-') and text not in ('1k', '5k', '10k', 'nosplit', 'chars', 'basic', 'bpe', 'learn-bpe')


def run_text(case):
    if not text_ok(case['text']):
        raise Skip('not a text for the command line')
    nodes = nodes_of(dict(case, opts={}))
    mode = case['mode']
    o = normalize(mode, case['opts'])
    tokens = call_text(case['text'], case['ext'] or None, mode, o, case['bpe'], meta=False)
    argv = arguments(mode, case['bpe'], o, case['ext'], ['verbose'] if case['verbose'] else [], case['style'], ('text', case['text']))
    check_text(argv, command_line(argv), list(tokens))
    return {'nontrivial': len(nodes) >= 3 and len(o) >= 1, 'labels': [mode, 'options:%d' % len(o)] + sorted(o)}


def run_corpus(case):
    fs.reset_home()
    base = fresh('c22')
    root = os.path.join(base, 'proj')
    os.makedirs(root)
    fs.plant(root, case['files'])
    fs.plant(root, [{'path': ['zz.java'], 'data': 'lala lala_x lalala\n'}])
    fs.set_times(root, 1300000000)
    mode, bpe_id = case['mode'], case['bpe']
    exts = case['exts']
    o = normalize(mode, case['opts'])
    vocab = case['vocab']
    if exts and 'java' not in exts:
        vocab = False
    custom = mode == 'bpe' and case['custom']
    if custom:
        bpe_id = 'proj-%d' % custom
        fs.must(fs.isolated(lambda: learn.run_command(learn.learn_command(root, custom, None, False, None)), ncpu=1), 'learn-bpe')
        shutil.copytree(os.environ['HOME'], os.path.join(base, 'home'))
    results = []
    for side in ('api', 'cli'):
        fs.reset_home()
        if custom:
            for d in ('.cache', '.config'):
                shutil.copytree(os.path.join(base, 'home', d), os.path.join(os.environ['HOME'], d))
        out = os.path.join(base, side)
        os.makedirs(out)
        given = case['output']
        if case['relative']:
            where = 'proj'
        else:
            where = root
        argv = arguments(mode, bpe_id, o, '|'.join(exts) if exts else None, ['calc_vocab'] if vocab else [], case['style'],
                         ('path', where, out if given else None))

        def go():
            os.chdir(base)
            if not given and not case['relative']:
                os.chdir(out)
            if side == 'api':
                fs.run_corpus({'mode': mode, 'bpe': bpe_id, 'opts': o}, where, out if given else None, calc_vocab=vocab,
                              extensions='|'.join(exts) if exts else None)
            else:
                command_line(argv)
            vocabs = {}
            for d, dirs, files in os.walk(os.environ['HOME']):
                for n in files:
                    if n == 'vocab':
                        p = os.path.join(d, n)
                        with open(p, encoding='utf-8') as f:
                            vocabs[os.path.relpath(p, os.environ['HOME'])] = sorted(f.read().splitlines())
            where_to = out if given or not case['relative'] else base
            tree = {os.fsdecode(k): v.decode('latin-1') for k, v in fs.snapshot(where_to).items() if b'_-_' in k.split(b'/')[0] and not k.startswith(b'.')}
            if where_to == base:
                for n in os.listdir(base):
                    if '_-_' in n:
                        wipe(os.path.join(base, n))
            return {'tree': tree, 'vocabs': vocabs}
        results.append(fs.must(fs.isolated(go, ncpu=case['ncpu'], timeout=90),
                               'the API' if side == 'api' else '%r' % (argv,)))
    api, cli = results
    require(api['tree'], 'nothing was written')
    fs.diff_trees({os.fsencode(k): v.encode('latin-1') for k, v in cli['tree'].items()},
                  {os.fsencode(k): v.encode('latin-1') for k, v in api['tree'].items()}, '%r, compared with the API' % (argv,))
    require(cli['vocabs'] == api['vocabs'], '%r: the vocabulary differs from that of the API' % (argv,), short({k: (v, api['vocabs'].get(k)) for k, v in cli['vocabs'].items() if v != api['vocabs'].get(k)}, 1500), sorted(api['vocabs']))
    if vocab:
        require(api['vocabs'], 'no vocabulary was written')
    wipe(base)
    return {'nontrivial': len(api['tree']) >= 2, 'labels': [mode, 'corpus', 'vocabulary' if vocab else 'no vocabulary',
                                                         'custom codes' if custom else 'no custom codes',
                                                         'output path' if given else 'current directory']}


def run_custom(case):
    """custom codes on the command line"""
    if not text_ok(case['text']):
        raise Skip('not a text for the command line')
    nodes_of(dict(case, opts={}))
    fs.reset_home()
    base = fresh('c22c')
    root = os.path.join(base, 'proj')
    os.makedirs(root)
    fs.plant(root, [{'path': ['a.java'], 'data': case['training'] + '\nlala lala_x lalala\n'}])
    fs.set_times(root, 1300000000)
    o = normalize('bpe', case['opts'])

    def go():
        learn.run_command(['learn-bpe', str(case['n']), '-p', root, '--id', 'my'])
        res = []
        for k in (1, max(1, case['n'] // 2), case['n']):
            try:
                tokens = list(call_text(case['text'], case['ext'] or None, 'bpe', o, 'my-%d' % k, meta=False))
            except Exception as e:
                if 'InvalidBpeCodesIdError' not in repr(e):
                    raise
                continue
            argv = arguments('bpe', 'my-%d' % k, o, case['ext'], [], case['style'], ('text', case['text']))
            check_text(argv, command_line(argv), tokens)
            res.append(tokens)
        return res
    res = fs.must(fs.isolated(go, ncpu=1), 'custom codes')
    wipe(base)
    return {'nontrivial': len(set(map(tuple, res))) >= 2, 'labels': ['custom codes, text']}


def run(case):
    return {'text': run_text, 'corpus': run_corpus, 'custom': run_custom}[case['what']](case)
