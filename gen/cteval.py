"""Generated grammars and texts for evaluation in constant expressions (C24).

The grammars are the ones of gen/grammars.py and gen/expressions.py. A helper built from the reference interpreter derives the texts
and says what they should give; then one translation unit per few grammars evaluates each case by the compiler and at run time."""
import os, random, io, re, subprocess
from . import grammars, expressions, ctrules

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

# name, encoding, character type, range input
KINDS = [('string', 'lexy::default_encoding', 'char', False), ('range', 'lexy::default_encoding', 'char', True), ('UTF-8 string', 'lexy::utf8_char_encoding', 'char', False),
         ('UTF-16 string', 'lexy::utf16_encoding', 'char16_t', False), ('UTF-32 range', 'lexy::utf32_encoding', 'char32_t', True), ('ASCII string', 'lexy::ascii_encoding', 'char', False)]


def q(b):
    """A C string literal"""
    return '"' + ''.join(chr(c) if 0x20 <= c < 0x7F and c not in (0x22, 0x5C, 0x3F) else '\\%03o' % c for c in b) + '"'


def array(name, ctype, units):
    vals = ', '.join(str(u - 256 if ctype == 'char' and u > 127 else u) for u in units)
    n = len(units)
    return 'struct %s { static constexpr std::size_t n = %d; static constexpr %s s[%d] = {%s}; };\n' % (name, n, ctype, max(n, 1), vals if n else '0')


def generate(out, seed, tier, salt=0, profiles=('general',), count=16, per_file=2, texts=8, rules=0):
    scale = 3 if tier == 'thorough' else 1
    count *= scale
    texts *= scale
    rng = random.Random(seed * 104729 + salt)
    counts = {}
    gs = []  # (name, declarations, make, root)
    while len(gs) < count:
        profile = profiles[len(gs) % len(profiles)]
        name = 'g%d' % len(gs)
        if profile == 'expr':
            g = expressions.grammar(rng, counts)
        else:
            g = grammars.Gen(rng, counts, dict(grammars.PROFILES[profile], pas=0, subg=0))
            g.grammar()
            if not (sum(len(p.cpp) for p in g.prods) < 1500 and sum(p.cost for p in g.prods) < 90 and max(p.cost for p in g.prods) < 50):
                continue
        if any(getattr(p, 'agg', False) for p in g.prods):
            continue
        f = io.StringIO()
        (expressions.emit if profile == 'expr' else grammars.emit)(f, name, g)
        t = f.getvalue()
        decl, rest = t.split('ref::grammar make()', 1)
        make, reg = rest.split('int reg = ', 1)
        text = reg[reg.index('R"__(') + 5:reg.rindex(')__"')]
        gs.append((name, decl[decl.index('{') + 1:], make, g.prods[-1].name, text))
    # texts
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, 'texts_%d.cpp' % salt)
    with open(src, 'w') as f:
        f.write('#include "c24_texts.cpp"\n')
        for name, _, make, _, _ in gs:
            f.write('namespace %s\n{\nref::grammar make()%s}\n' % (name, make))
        f.write('const ref_entry ref_entries[] = {%s};\nconst unsigned ref_count = %d;\n' % (', '.join('{"%s", &%s::make}' % (g[0], g[0]) for g in gs), len(gs)))
    b = src[:-4] + '.bin'
    r = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(VERIF, 'lib'), '-I', os.path.join(VERIF, 'harness'),
                        src, os.path.join(VERIF, 'lib', 'pbt_main.cpp'), '-o', b], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[:3000])
    n = count * texts * 4
    r = subprocess.run([b, '--seed', str(seed * 77 + salt), '--cases', str(n), '--seconds', '120'], capture_output=True, text=True, cwd=out, env=dict(os.environ, PBT_TMP=out))
    os.unlink(b)
    cases = {}
    unhex = lambda s: bytes.fromhex(s[1:])
    for line in r.stdout.splitlines():
        if line.startswith('CASE '):
            _, name, text, verdict, value, errors, events = line.split(' ')
            cases.setdefault(name, {})[unhex(text)] = (int(verdict), unhex(value), unhex(errors), int(events))
    files = []
    for at in range(0, len(gs), per_file):
        path = os.path.join(out, 'cteval_%d_%03d.cpp' % (salt, len(files)))
        with open(path, 'w') as f:
            f.write('#include "cx.hpp"\n')
            for name, decl, _, root, text in gs[at:at + per_file]:
                f.write('namespace %s\n{\n%s' % (name, decl))
                mine = list(cases.get(name, {}).items())
                rng.shuffle(mine)
                # mostly cases in which something happens
                mine.sort(key=lambda c: c[1][3] < 7)
                f.write('const char* const text = R"__(%s)__";\n' % text)
                kinds = rng.sample(KINDS[1:], 2)
                for i, (t, (verdict, value, errors, _)) in enumerate(mine[:texts]):
                    kind = KINDS[0] if i % 2 == 0 or max(t, default=0) > 127 else kinds[i // 2 % 2]
                    f.write(array('t%d' % i, kind[2], t))
                    f.write('int r%d = gx::add<gx::eval_grammar<%s, %s, %s, t%d>, t%d>("%s", text, "%s", true, %d, %s, %s);\n'
                            % (i, root, kind[1], 'true' if kind[3] else 'false', i, i, name, kind[0], verdict, q(value), q(errors)))
                f.write('}\n')
        files.append(path)
    if rules:
        files += ctrules.generate(out, rng, rules * scale, salt)
    return files
