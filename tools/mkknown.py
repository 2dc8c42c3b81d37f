#!/usr/bin/env python3
"""Writes known_findings.txt (fixed lines from /repo's fix commits; known lines as listed here)."""
import subprocess
prop = {}
for line in """
ce75032 C04
bf9f9a5 C31
18f710c C02
2ce1ef2 C03
ab07fee C25
f7da983 C19
2d28c82 C19
5f5c1bd C16
80e8852 C15
84b5f5b C14
6d068e4 C14
08b9e6e C17
bdd4fa7 C21
92f0ecf C21
af1cd37 C21
bb72c37 C23
67c36da C30
ffead8d C31
0d5157c C10
7d6fec8 C10
4ac51e4 C10
9e461a9 C10
125057a C11
88fab0d C11
6015474 C07
eab7787 C07
f768b94 C08
e95ecf7 C31
52a1573 C32
aa81627 C05
9a362a9 C05
dba6bf2 C06
01282ce C32
8ec8d61 C08
903c75a C09
397863c C09
b2aa701 C09
6447edc C09
906f06e C12
424e3da C13
491ea51 C27
84e6c62 C27
735ff24 C27
e2a4555 C28
df3a4e0 C26
0eb25c0 C26
f3a69d1 C26
b072e0e C26
b6b8b40 C26
90d5b5b C29
b272ed3 C29
7e2e337 C32
29b54fc C25
cace064 C14
0dfd2d7 C12
d15cb40 C12
bfbfba1 C32
592e2a4 C10
430dc64 C09
00e6eb1 C09
7cb1e62 C21
482e7d3 C22
488ec6d C26
dfa40d9 C26
49ddf89 C31
a6ce574 C29
be5ac68 C29
dc43937 C29
4043d09 C10
61438b6 C31
37bdf5f C31
13ded90 C33
""".split('\n'):
    if line:
        h, p = line.split()
        prop[h] = p
known = """
known: property=C10 sig=empty-stack Engine.Verify(OP_1, OP_DROP): outside transactions (no EnableStrict) an empty final stack counts as success; pinned by xvm/testdata/vm.json
known: property=C10 sig=op-return Engine.Verify(OP_1, OP_RETURN): outside transactions (no EnableStrict) an executed OP_RETURN does nothing; pinned by xvm/testdata/vm.json
known: property=C11 sig=push-zero-byte ScriptBuilder.AddData({0x00}) emits OP_0, which pushes the empty item; pinned by xvm/scriptbuilder_test.go
known: property=C11 sig=load-odd-hex ScriptBuilder.Load("'abc'") pushes ab instead of reporting the malformed hex; pinned by xvm/testdata/vm.json
known: property=C22 sig=seed-nfkd NewSeed does not normalise its texts to NFKD, so a composed and a decomposed spelling of a passphrase ("\u00e9") give different seeds; needs the Unicode tables of golang.org/x/text, a new dependency
known: property=C13 sig=estimate-witness-input the size estimate of a witness input is below its real virtual size; pinned by the fee tests of xcore
known: property=C13 sig=estimate-output-length the size estimate counts every output as one kind of 34 bytes; pinned by the fee tests of xcore
known: property=C13 sig=estimate-change-output the fee of a builder with a rate does not count the change output it adds; pinned by the fee tests of xcore
known: property=C13 sig=estimate-multisig-input the size estimate of a multisig input is that of a plain one; pinned by the fee tests of xcore
"""
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '49c3b90..HEAD'], capture_output=True, text=True).stdout
out = ["# Findings of the checks. 'known' lines are matched by property and signature of the failing case; 'fixed' lines suppress nothing."]
out += known.strip().split('\n')
for l in log.strip().split('\n'):
    h, msg = l.split(' ', 1)
    if msg.startswith('fix: '):
        out.append(f"fixed: property={prop[h]} {h} {msg[5:]}")
open('/verif/known_findings.txt', 'w').write('\n'.join(out) + '\n')
