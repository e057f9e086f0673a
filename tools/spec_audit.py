#!/usr/bin/env python3
"""Compares the tables the checks use as oracle with the TPM 2.0 specification shipped in /repo/docs/specs.

Reads the text of Part 2 (tools/pdftext.py) and confirms
 * every number of harness/codec/src/table.rs that the specification names,
 * field names and order of every structure of harness/codec/src/types.rs,
 * selector and member of every union there,
 * the bit of every attribute flag of harness/codec/src/numbers.rs.
Run by hand when a table changes; no check depends on it."""
import glob, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
src = os.path.join(here, '../harness/codec/src')
pdf = glob.glob('/repo/docs/specs/tpm2_v185/*Part-2*.pdf')[0]
txt = subprocess.run([sys.executable, os.path.join(here, 'pdftext.py'), pdf], capture_output=True, text=True, check=True).stdout.split('\n')
norm = lambda s: re.sub(r'[^a-z0-9]', '', s.lower())
ok, bad, unknown = {}, [], []
def done(kind): ok[kind] = ok.get(kind, 0) + 1

# ---- numbers
BASE = {'PT_FIXED': 0x100, 'PT_VAR': 0x200, 'RC_VER1': 0x100, 'RC_FMT1': 0x80, 'RC_WARN': 0x900}
named = {}
for l in txt:
    for m in re.finditer(r'\b((?:TPM|TPMA|RC)_[A-Za-z0-9_]+)\t(?:(PT_FIXED|PT_VAR|RC_VER1|RC_FMT1|RC_WARN)\t?\+\t?)?(0x[0-9A-Fa-f]+|[0-9]+)\b', l):
        named.setdefault(norm(m.group(1)), set()).add(BASE.get(m.group(2), 0) + int(m.group(3), 0))
PRE = {'Alg': 'TPM_ALG_', 'TpmHandle': 'TPM_', 'TpmAlgId': 'TPM_ALG_', 'TpmEccCurve': 'TPM_ECC_'}
space = None
for l in open(os.path.join(src, 'table.rs')):
    m = re.match(r'\s*"(\w+)" => \[', l)
    if m: space = m.group(1)
    m = re.match(r'\s*\((.*), (0x[0-9a-f]+|\d+), "(\w+)"\)', l)
    if not m: continue
    v, n = int(m.group(2), 0), m.group(3)
    # interface types (Tpmi...) restrict a base space: any prefix
    p = PRE.get(space) or re.sub(r'(?<=[a-z])(?=[A-Z])', '_', space).upper() + '_'
    c = [norm(p + n)] if norm(p + n) in named else [k for k in named if space.startswith('Tpmi') and k.endswith(norm(n))]
    if not c: unknown.append(f'{space}::{n} = {v:#x}')
    elif any(v in named[k] for k in c): done('numbers')
    else: bad.append(f'{space}::{n} = {v:#x}, specification {[(k, named[k]) for k in c]}')

# ---- structures and unions
def table(name):
    for i, l in enumerate(txt):
        if re.match(r'Table\d+:\tDefinition', l) and re.search(r'(?<![A-Z_0-9])' + name + r'(Structure|Union|Bits)', l):
            rows = []
            for k in txt[i + 1:i + 160]:
                if re.match(r'Table\d+:\tDefinition|\d+(\.\d+)+\t?[A-Z]', k): break
                rows.append(k.split('\t'))
            # the list of tables at the start has no rows
            if any(r[0] in ('Parameter', 'Name', 'Bit') for r in rows[:4]): return rows
types = open(os.path.join(src, 'types.rs')).read()
st = re.search(r'\nst! \{(.*?)\n\}', types, re.S).group(1)
SKIP = {'GetCapabilityCmd', 'GetCapabilityResp', 'GetRandomCmd', 'GetRandomResp', 'StartupCmd', 'TpmsEmpty', 'TpmsAsymParms'}
for name, body in re.findall(r'(\w+) \{(.*?)\}', st, re.S):
    fields = re.findall(r'(\w+):', body)
    if name in SKIP: continue
    sn = 'TPM' + name[3].upper() + '_' + re.sub(r'(?<=[a-z])(?=[A-Z])', '_', name[4:]).upper()
    rows = table(sn) or table(sn.replace('KEYED_HASH', 'KEYEDHASH').replace('SYM_CIPHER', 'SYMCIPHER'))
    if rows is None:
        unknown.append(name); continue
    got = [norm(re.sub(r'\{.*|\[.*', '', r[0])) for r in rows if len(r) > 1 and re.match(r'\+?(TPM|UINT|BYTE)', r[1])]
    got = [g for g in got if g]
    want = [norm(f) for f in fields]
    # descriptions that look like a row are longer lists: the fields must be a subsequence starting with the first row
    it = iter(got)
    if got[:1] == want[:1] and all(w in it for w in want): done('structures')
    else: bad.append(f'{name}: fields {want}, specification {got}')
un = re.search(r'\nun! \{(.*?)\n\}', types, re.S).group(1)
UNION = {'TpmtHa': 'HA', 'TpmuAttest': 'ATTEST', 'TpmtKeyedHashScheme': 'SCHEME_KEYEDHASH', 'TpmtSymDefObject': 'SYM_KEY_BITS',
         'TpmtSignature': 'SIGNATURE', 'TpmtSigScheme': 'SIG_SCHEME', 'TpmtRsaScheme': 'ASYM_SCHEME', 'TpmtEccScheme': 'ASYM_SCHEME',
         'TpmtKdfScheme': 'KDF_SCHEME', 'TpmtAsymScheme': 'ASYM_SCHEME', 'PublicParmsAndId': 'PUBLIC_ID',
         'TpmuSensitiveComposite': 'SENSITIVE_COMPOSITE', 'TpmsCapabilityData': 'CAPABILITIES'}
for name, body in re.findall(r'(\w+): u\d+ \{(.*?)\n    \}', un, re.S):
    rows = table('TPMU_' + UNION[name]) or []
    sel = {}
    for r in rows:
        for c in r[1:]:
            for k in re.findall(r'TPM_(?:ALG|ST|CAP)_[A-Z0-9_]+', c):
                sel.setdefault(norm(re.sub(r'\[.*', '', r[0])), named.get(norm(k), set()))
    for s, member in re.findall(r'(0x[0-9a-f]+|\d+) => (\w+)', body):
        m = {'exclusiveor': 'xor', 'hashcheck': 'hash'}.get(norm(member), norm(member))
        if name == 'TpmuSensitiveComposite' and m == 'any': continue  # no selector in the specification
        if not rows: sel[m] = named.get('tpmalg' + m, set())  # older unions: the algorithm of that name
        if m not in sel: unknown.append(f'{name}::{member}')
        elif int(s, 0) in sel[m]: done('union members')
        else: bad.append(f'{name}::{member} has selector {s}, specification {sel[m]}')

# ---- attribute bits
flags = re.search(r'flags! \{\s*\n(.*?)\n        \}\n', open(os.path.join(src, 'numbers.rs')).read()[open(os.path.join(src, 'numbers.rs')).read().find('flags! {\n            TpmaLocality'):], re.S).group(1)
for name, body in re.findall(r'(Tpma\w+) \{(.*?)\}', flags, re.S):
    sn = 'TPMA_' + name[4:].upper()
    bits = {}
    for r in table(sn) or []:
        if len(r) > 1 and re.fullmatch(r'\d+', r[0]): bits[norm(re.sub(r'^(TPMA_NV_|TPM_)', '', r[1]))] = int(r[0])
    for f, b in re.findall(r'(\w+) = (\d+)', body):
        if norm(f) not in bits: unknown.append(f'{name}::{f}')
        elif bits[norm(f)] == int(b): done('attribute bits')
        else: bad.append(f'{name}::{f} = {b}, specification {bits[norm(f)]}')
print('confirmed:', ok)
print('without a counterpart found:', *unknown, sep='\n  ')
print('DIFFERENT:', *bad, sep='\n  ')
sys.exit(bool(bad))
