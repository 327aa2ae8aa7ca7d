#!/usr/bin/env python3
"""gen_types.py SEED TIER > header: random aggregates, macro-registered classes and enums, each with an
independent description (names, addresses, values) taken from the generated declaration itself."""
import random, sys
seed, tier = int(sys.argv[1]), sys.argv[2]
R = random.Random(seed * 2 + (tier != 'quick'))
NS, NE = (12, 5) if tier == 'quick' else (70, 40)
out = []
SIMPLE = ['int', 'bool', 'char', 'double', 'float', 'short', 'std::int8_t', 'std::uint8_t', 'std::uint16_t', 'std::uint32_t', 'long', 'std::uint64_t', 'unsigned']
RICH = ['std::string', 'std::vector<int>', 'std::optional<int>', 'std::optional<std::string>', 'std::unique_ptr<int>', 'std::shared_ptr<int>', 'std::array<int, 3>', 'std::map<std::string, int>', 'std::string_view', 'std::tuple<int, std::string>', 'int const*', 'std::vector<std::string>', 'std::variant<int, std::string>', 'std::pair<int, int>']
LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
KW = set('int bool char double float short long and or not xor if do for new asm try var this true else enum case goto void auto const bitor compl using union class while catch throw break static std f0 f1 t'.split())
def ident(used, n=None):
    while True:
        k = R.choice([1, 1, 2, 3, 5, 9, 16])
        s = R.choice(LET.replace('_', '')) + ''.join(R.choice(LET + '0123456789') for _ in range(k - 1))
        if used and R.random() < .3:
            b = R.choice(sorted(used)); s = b + R.choice(['_', '1', 'x', 'X', '_1'])      # near-collisions
        if s in KW or s in used or '__' in s or s.startswith('_') or (s[0] == 'f' and s[1:].isdigit()): continue
        used.add(s); return s
tn = set(); structs = []; enums = []; descs = []
def ns():
    return R.choice(['', '', 'g1', 'g1::g2', 'deep::er::still'])
def wrap(n, body): return f'namespace {n} {{\n{body}\n}}\n' if n else body + '\n'
def full(n, name): return (n + '::' if n else '') + name
for e in range(NE):
    n, name = ns(), 'E' + ident(set()) + str(e)
    und = R.choice(['', ': int', ': std::uint8_t', ': std::int8_t', ': unsigned', ': long', ': std::uint16_t'])
    if e < 2: und = [': int', ': std::uint8_t'][e]
    cls = R.choice(['class ', '']) if und else 'class '
    uns = 'uint' in und or 'unsigned' in und
    lo, hi = (0, 255) if uns else (-128, 127)
    cnt = R.choice([1, 2, 3, 5, 12, 40])
    cnt = min(cnt, 30) if tier == 'quick' and R.random() < .5 else cnt
    vals = R.sample(range(lo, hi + 1), cnt); 
    if R.random() < .4: vals = list(range(min(cnt, 128)))
    if e < 2: cnt = 5; vals = [lo, hi, lo + 1, 0 if lo else 7, hi - 1]
    if R.random() < .5: vals[0] = lo if lo not in vals else vals[0]
    if R.random() < .5: vals[-1] = hi if hi not in vals else vals[-1]
    used = set(); names = []
    for _ in vals: 
        x = ident(used) ; names.append((x if cls else f'{name}_{x}'))
    R.shuffle(vals) if R.random() < .3 else None
    out.append(wrap(n, f'enum {cls}{name} {und} {{ ' + ', '.join(f'{a} = {v}' for a, v in zip(names, vals)) + ' };'))
    F = full(n, name); enums.append(F)
    out.append(f'template <> struct Desc<{F}> {{ static constexpr char const* type = "{name}"; static constexpr long lo = {lo}, hi = {hi}; static std::vector<std::pair<std::string, long>> values() {{ return {{' + ', '.join(f'{{"{a}", {v}}}' for a, v in zip(names, vals)) + '}; } };\n')
agg = []
for s in range(NS):
    n, name = ns(), 'S' + ident(set()) + str(s)
    kind = R.choice(['agg'] * 6 + ['refl', 'refl_as', 'refl_g', 'refl_g_as'])
    if s < 5: kind = ['refl_as', 'refl', 'refl_g_as', 'refl_g', 'agg'][s]
    cnt = R.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 17 if tier == 'quick' else 33])
    if s == 4: cnt = 33
    if kind != 'agg': cnt = min(cnt, 9)
    used = set(); mem = []
    for i in range(cnt):
        p = R.random()
        ty = R.choice(SIMPLE) if p < .5 else R.choice(RICH) if p < .85 else ('::' + R.choice(agg) if agg and p < .95 else '::' + R.choice(enums))
        mem.append((ty, ident(used)))
    F = full(n, name)
    vis = mem; alias = {m: m for _, m in mem}
    if kind != 'agg':
        vis = list(mem) if 'refl_g' in kind else [m for m in mem if R.random() < .8] or mem[:1]     # HX_REFL_G serves aggregates and lists all members
        if R.random() < .4: R.shuffle(vis)
        if kind.endswith('as'): alias = {m: ident(used) for _, m in mem}
    decl = ''.join(f'    {t} {m}{{}};\n' for t, m in mem)
    lst = ', '.join(m if not kind.endswith('as') else f'{m}, {alias[m]}' for _, m in vis)
    addrs = 'static std::vector<std::pair<void const*, std::size_t>> addrs(T const& o) { return {' + ', '.join(f'{{&o.{m}, sizeof o.{m}}}' for _, m in vis) + '}; }'
    if kind in ('refl', 'refl_as'):
        body = f'class {name} {{\n    friend struct ::Desc<{F}>;\n{decl}public:\n    {"HX_REFL" if kind == "refl" else "HX_REFL_AS"}({lst})\n}};'
        out.append(('namespace %s { class %s; }\n' % (n, name) if n else f'class {name};\n') + f'template <> struct Desc<{F}>;\n' + wrap(n, body))
    elif kind in ('refl_g', 'refl_g_as'):
        body = f'class {name} {{\npublic:\n{decl}}};\n{"HX_REFL_G" if kind == "refl_g" else "HX_REFL_G_AS"}({name}, {lst})'
        out.append(wrap(n, body))
    else:
        out.append(wrap(n, f'struct {name} {{\n{decl}}};')); agg.append(F)
    ptrs = ''
    if kind in ('agg', 'refl_g', 'refl_g_as'):
        ptrs = '    static constexpr bool hasPtrs = true; template <typename F> static void ptrs(F f) { ' + ' '.join(f'f(&T::{m}, "{alias[m]}");' for _, m in vis) + ' }\n'
    else: ptrs = '    static constexpr bool hasPtrs = false; template <typename F> static void ptrs(F) {}\n'
    out.append(f'template <> struct Desc<{F}> {{ using T = {F}; static constexpr char const* type = "{name}"; static constexpr std::size_t count = {len(vis)};\n'
        f'    static std::vector<std::string> names() {{ return {{' + ', '.join(f'"{alias[m]}"' for _, m in vis) + '}; }\n    ' + addrs + '\n' + ptrs +
        f'    static constexpr bool aggregate = {"true" if kind == "agg" else "false"}; }};\n')
    structs.append(F)
print('#pragma once\n' + ''.join(out))
print('#define GEN_STRUCTS(X) ' + ' '.join(f'X({s})' for s in structs))
print('#define GEN_ENUMS(X) ' + ' '.join(f'X({s})' for s in enums))
