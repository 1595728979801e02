#!/usr/bin/env python3
"""Lists single-place source mutants of /repo/src (non-test code) as JSON lines: {"id","file","line","old","new","op"}."""
import re, json, sys, os
root = sys.argv[1] if len(sys.argv) > 1 else '/repo'
FILES = ['circuit.rs', 'commitment.rs', 'encryption.rs', 'keygen.rs', 'saver_groth16.rs', 'serde_utils.rs', 'setup.rs', 'utils.rs']
SUB = [
    (r'(?<=[\w\)\]] )\+(?= [\w\(])', '-', 'plus-minus'), (r'(?<=[\w\)\]] )-(?= [\w\(])', '+', 'minus-plus'),
    (r'(?<=[\w\)\]] )\*(?= [\w\(])', '+', 'times-plus'),
    (r'(?<= )==(?= )', '!=', 'eq-ne'), (r'(?<= )!=(?= )', '==', 'ne-eq'), (r'(?<= )!=(?= )', '<', 'ne-lt'), (r'(?<= )!=(?= )', '>', 'ne-gt'),
    (r'(?<= )>(?= [\w])', '>=', 'gt-ge'), (r'(?<= )<=(?= )', '<', 'le-lt'), (r'(?<= )<(?= [\w])', '<=', 'lt-le'),
    (r'\.\.=', '..', 'incl-excl'), (r'(?<=\w)\.\.(?=[\w(])', '..=', 'excl-incl'),
    (r'(?<=\()0\.\.', '1..', 'from-0-1'), (r'\b1\.\.', '2..', 'from-1-2'),
    (r'\b(\d+)\b(?!\.)', 'NUM+1', 'num+1'), (r'\b([1-9]\d*)\b(?!\.)', 'NUM-1', 'num-1'),
    (r'\.neg\(\)', '', 'neg-drop'), (r'\(-(?=[a-z])', '(', 'minus-drop'),
    (r'(?<=[\w\)])\.is_zero\(\)', '.is_zero() == false', 'is-zero'),
    (r'\btrue\b', 'false', 'true-false'), (r'\bfalse\b', 'true', 'false-true'),
    (r'\badd_assign\b', 'sub_assign', 'add-sub'), (r'\.add\(', '.sub(', 'add-sub'), (r' \+= ', ' -= ', 'addeq'),
    (r'\[i\]', '[0]', 'idx0'), (r'\[j\]', '[0]', 'idx0'), (r'\[i \+ 1\]', '[i]', 'idx-1'), (r'\[j \+ 1\]', '[j]', 'idx-1'),
    (r'\b(ek|eks\[i\]|other|self|dk|ek_partial)\.X\b', r'\1.Y', 'X-Y'), (r'\b(ek|eks\[i\]|other|self|dk|ek_partial)\.Y\b', r'\1.X', 'Y-X'),
    (r'\.P_1\b', '.P_2', 'P1-P2'), (r'\.P_2\b', '.P_1', 'P2-P1'), (r'\.V_1\b', '.V_2', 'V1-V2'), (r'\.V_2\b', '.V_1', 'V2-V1'), (r'\.V_0\b', '.V_0_', 'x'),
    (r'\bgens\.G\b', 'gens.H', 'G-H'), (r'\bgens\.H\b', 'gens.G', 'H-G'),
    (r'\bdelta_g\b', 'gamma_g', 'delta-gamma'), (r'\bgamma_g\b', 'delta_g', 'gamma-delta'),
    (r'\bdelta\b(?!_)', 'gamma', 'd-g'), (r'\balpha\b(?!_)', 'beta', 'a-b'), (r'\bbeta\b(?!_)', 'alpha', 'b-a'), (r'\bgamma\b(?!_)', 'delta', 'g-d'),
    (r'\bg_r1\b', 'g_r2', 'r1-r2'), (r'\bw1\b', 'w2', 'w1-w2'), (r'\bw2\b', 'w1', 'w2-w1'), (r'\bct1\b', 'ct2', 'c1-c2'), (r'\bct2\b', 'ct1', 'c2-c1'),
    (r'\bif (?!let)([^{]+) \{', r'if false && (\1) {', 'if-false'), (r'\bif (?!let)([^{]+) \{', r'if true || (\1) {', 'if-true'),
    (r'<< ', '>> ', 'shl-shr'), (r'>> ', '<< ', 'shr-shl'), (r' & ', ' | ', 'and-or'),
    (r'\.min\(', '.max(', 'min-max'), (r'\bE::ScalarField::rand\(rng\)', 'E::ScalarField::one()', 'rand-one'),
    (r'b" : G"', 'b" : H"', 'G-H label'), (r'j\.to_le_bytes\(\)', '[j as u8]', 'retry-byte'), (r'\bbytes, b"', 'b"", b"', 'retry-label'),
    (r'\.mul_by_cofactor_to_group\(\)', '.into()', 'cofactor'), (r'Some\(n\)', 'None', 'some-none'), (r'from_be_bytes', 'from_le_bytes', 'be-le'), (r'to_bytes_be', 'to_bytes_le', 'be-le'),
    (r'deserialize_compressed\b', 'deserialize_compressed_unchecked', 'unchecked'), (r'doubling|double_in_place', 'double_in_place', 'x'),
    (r'\.rev\(\)', '', 'rev'), (r'checked_shl', 'checked_shr', 'shl'), (r'unwrap_or\(&\[\]\)', 'unwrap()', 'unwrap'), (r'\.len\(\)', '.len() + 1', 'len+1'),
    (r'AllocationMode::Input', 'AllocationMode::Witness', 'input-witness'), (r'\.or\(', '.and(', 'or-and'), (r'\.or\(', '.xor(', 'or-xor'),
]
out = []
for f in FILES:
    p = os.path.join(root, 'src', f)
    lines = open(p).read().split('\n')
    for n, l in enumerate(lines):
        if l.strip() == '#[cfg(test)]': break
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use') or s.startswith('pub type') or 'with_capacity' in s or 'SaverError::' in s or s.startswith('assert_eq'):
            continue
        code = l.split('//')[0]
        seen = set()
        for pat, rep, op in SUB:
            for m in re.finditer(pat, code):
                if rep == 'NUM+1': r = str(int(m.group(1)) + 1)
                elif rep == 'NUM-1': r = str(int(m.group(1)) - 1)
                else: r = m.expand(rep)
                if op.startswith('num') and (re.search(r'[A-Za-z_]$', code[:m.start()]) or 'ArkObject' in code or re.match(r'u\d', code[m.start()-1:m.end()])): continue
                if op == 'len+1' and 'Err(' in code: continue
                new = code[:m.start()] + r + code[m.end():]
                if new != code and new not in seen:
                    seen.add(new); out.append((f, n, l, new, op))
        # statement removal
        if s.endswith(';') and not re.match(r'(let|return|use|pub|type|const|\}|\)|\]|\.)', s) and '(' in s and s.count('(') == s.count(')'):
            out.append((f, n, l, re.match(r'\s*', l).group(0) + '{}', 'delete'))
for i, (f, n, l, new, op) in enumerate(out):
    print(json.dumps({"id": f"{f[:-3]}-{n+1}-{op}-{i}", "file": f, "line": n, "old": l, "new": new, "op": op}))
