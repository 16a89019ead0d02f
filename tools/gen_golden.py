#!/usr/bin/env python3
"""One-off: snapshot of the format's name tables as golden data for the reference model.
Run by hand when a new table entry is to be covered; never by a check."""
import re
src = open('/repo/src/data.rs').read()
sp, rest = src.split('pub(crate) static ATTRIBUTES', 1)
at, pc = rest.split('PARENT_CLASSES', 1)
spawns = re.findall(r'\(\s*"([^"]+)",\s*SpawnTrajectory::(\w+),?\s*\)', sp)
attrs = re.findall(r'"([^"]+)" => AttributeTag::(\w+)', at)
par = re.findall(r'"([^"]+)" => "([^"]+)"', pc)
tags = sorted(set(t for _, t in attrs) | {'NotImplemented'})
o = open('/verif/harness/src/golden.rs', 'w')
o.write('//! Golden name tables of the replay format (snapshot; see tools/gen_golden.py).\n\n')
o.write('#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]\npub enum Tag {\n' + ''.join(f'    {t},\n' for t in tags) + '}\n\n')
o.write('#[derive(Debug, Clone, Copy, PartialEq, Eq)]\npub enum Spawn {\n    None,\n    Location,\n    LocationAndRotation,\n}\n\n')
o.write('pub static SPAWNS: &[(&str, Spawn)] = &[\n' + ''.join(f'    ("{n}", Spawn::{s}),\n' for n, s in spawns) + '];\n\n')
o.write('pub static ATTRS: &[(&str, Tag)] = &[\n' + ''.join(f'    ("{n}", Tag::{t}),\n' for n, t in attrs) + '];\n\n')
o.write('pub static PARENTS: &[(&str, &str)] = &[\n' + ''.join(f'    ("{n}", "{t}"),\n' for n, t in par) + '];\n')
print(len(spawns), len(attrs), len(par), len(tags))
