import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="abstract interpretation of rustc MIR: bit-precise value-flow (BDD domain, joins at post-dominators) from property entries; nothing executed, no solver"
TX={
 'C21':"abstract interpretation of rustc MIR: byte-precise memory, pointer-provenance, initialisation and unsafe-precondition analysis over all operations",
 'C22':"abstract interpretation of the MIR lowered for a big-endian (s390x) and a 32-bit (i686) target",
 'C26':"abstract interpretation of rustc MIR: panic-edge and overflow-assertion reachability over all operations, with debug assertions compiled in",
 'C03':"abstract interpretation of rustc MIR: every exit of the checked accessors over all levels at once (panic-edge reachability)",
 'C23':T,
 'C35':"abstract interpretation of rustc MIR: reachability of the allocator from regions that must not allocate",
 'C36':"abstract interpretation of rustc MIR: heap ownership (every allocation freed or reachable from a static when the entry returns)",
 'C32':"compile-fail witnesses with accepted twins (rustc type and borrow checker), and a query over all public signatures and type declarations",
 'C30':"whole-crate effect query over rustc MIR (statics, callees, interior mutability, foreign items) and Send/Sync/Copy type-level witnesses",
}
FULL="Complete over all values, cell contents and orderings for every fixed-depth and static type at every depth; "
DYN="dynamic indices are covered up to 26-30 levels (every byte-boundary phase several times over), at some depths of a few hundred, and mostly at 65541 levels with thirteen free cells. "
BASE="Trusts rustc's MIR, this analyser's MIR semantics (engine/), and the entries in adapters/ as a reading of the property."
NOTE={}
for i in range(1,37):
    NOTE[f'C{i:02d}']=FULL+DYN+BASE
NOTE['C11']=NOTE['C12']="Complete: every ordering, cell and (C12) every usize. "+BASE
NOTE['C15']="Complete: every unsigned type, bit range and value. "+BASE
NOTE['C16']="Complete over the documented input widths. "+BASE
NOTE['C19']="u8 complete; wider types: every value for each power of two, the small alignments and those near the maximum, plus windows of 256 values around multiples for other alignments. "+BASE
NOTE['C20']="Slices up to a few free indices (lengths to 300), of small types, all namings; comparison complete for those. "+BASE
NOTE['C25']="Complete: all 3x64 coordinate bits, all orderings. "+BASE
NOTE['C24']="Complete: every raw value, every valid depth, every 3D fixed-depth and static type. "+BASE
NOTE['C27']="Byte vectors up to 5 bytes (quick), every bit range and content; some ranges far into longer vectors. "+BASE
NOTE['C28']="Complete for the integer types; slices up to three bytes longer than the number, and some up to 65544 bytes; byte vectors up to 17 bytes. "+BASE
NOTE['C21']="Every memory access, pointer use, unsafe precondition and produced value met by the entries of all properties, with every value of their inputs; quick takes every third depth. "+BASE
NOTE['C26']="Every panic edge, assertion and overflow check met by the entries of all properties, debug assertions on; quick takes every third depth. "+BASE
NOTE['C22']="The entries of the operations named, on MIR built for s390x and i686; quick takes every fourth depth, thorough all. "+BASE
NOTE['C29']="Complete over values; every depth of the static and fixed types (quick: nine depths of those with more than 8 levels); dynamic up to 17 levels (quick), 33 (thorough). "+BASE
NOTE['C31']="Complete over values; types of up to 16 levels at every depth, deeper ones at eight depths (the same code is covered at every depth through the index types); dynamic up to 10 levels (quick), 24 (thorough). "+BASE
NOTE['C30']="Complete: every function body and type of the crate. Trusts that std functions outside the named effect families are pure."
NOTE['C33']="Complete over values and depths for two kinds of outside storage (up to 12 levels) and an outside bit type of 96 bits; every fifth depth for one of 64 bits (thorough: all). "+BASE
NOTE['C34']="Complete over one to eight axes, u8 to u128, every content and cell; byte vectors up to 11 bytes (thorough: 24). "+BASE
NOTE['C35']=FULL+BASE
NOTE['C36']="Every allocation met by the entries of all other properties, with every value of their inputs; quick takes every third depth. "+BASE
NOTE['C32']="One witness per kind of misuse and type; complete over the signatures of the crate. A rejection for an unexpected reason is reported as inconclusive. Trusts rustc's type and borrow checker."
m=dict(version=1,setup_cmd="./setup.sh",checks=[],not_applicable=[],
 notes="See DESIGN.md. No hooks are needed in /repo. known_findings.txt lists the defects that were repaired.")
for l in open(V+'/properties.jsonl'):
    p=json.loads(l)['id']
    m['checks'].append(dict(property=p,quick_cmd=f"python3 check.py {p} quick",thorough_cmd=f"python3 check.py {p} thorough",
      evidence_file=f"evidence/{p}.json",technique=TX.get(p,T),level="other",level_note=NOTE[p]))
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
