#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = 'deductive verification (Verus/Z3): each parser function, extracted from rustc THIR on every run, against its contract (result == reference grammar); bounded differential search for the failing input'
NOTE = ('proof, for all texts and indentations, that every parser function the property depends on returns what the reference grammar of the property prescribes; '
        'trusts rustc THIR, the lowering in lib/lower.py, the assumed contracts of nom leaf macros/regex/std listed in evidence, and Verus/Z3. '
        'A function the lowering cannot express is only checked by the bounded differential search and is listed in evidence as such.')
TOOLT = 'deductive verification (Verus/Z3): every function of the tool, extracted from rustc THIR on every run, against its contract (what it writes, as a function of the file system and of what ast::file returns); runs of the tool on made-up files for the failing input'
TOOLN = ('proof, for all files, directories and arguments, of %s; trusts rustc THIR, the lowering in lib/lower.py and lib/lower_tools.py, the assumed contracts of std::fs, std::env, clap, walkdir and println! '
         'in verus/tools.rs, that ast::file is the function verified by C01 to C21, and Verus/Z3. A function the lowering cannot express is only checked by running the tool and is listed in evidence as such.')
OVER = {'C22': {'technique': TOOLT, 'note': TOOLN % 'get_export_set_imports, get_imported_names and main'},
        'C23': {'technique': TOOLT, 'note': TOOLN % 'dump_file, dump_directory and main'}}
def main():
    props = [json.loads(l) for l in open(H + '/properties.jsonl')]
    checks = []
    for p in props:
        i = p['id']
        if i in NA: continue
        o = OVER.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': o.get('technique', TECH), 'level': o.get('level', 'proof'),
                       'level_note': o.get('note', NOTE)})
    m = {'version': 1, 'setup_cmd': 'true',
         'hooks': {'guard': 'elm_verif', 'enable': "RUSTFLAGS='--cfg elm_verif' (set by lib/pipe.py when it builds the harness): makes `ast` public", 'source_commits': ['39e138f']},
         'checks': checks, 'not_applicable': [{'property': i, 'reason': r} for i, r in NA.items()]}
    open(H + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
if __name__ == '__main__': main()
