[
dict(id='w01-short-build-id', property='W01', file='wasm-split/src/main.rs',
 edits=[("            CustomSection::BuildId(build_id) => Some(build_id.clone()),", "            CustomSection::BuildId(build_id) if build_id.len() == 16 => Some(build_id.clone()),")],
 needs='a module whose build id is not 16 bytes long', breaks='such a module gets a second build id', files={'w.py': '@w.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/w.py" <<'EOF'
write('in.wasm', [custom('build_id', bytes([20]) + bytes(range(20)))])
rc, out = run('in.wasm', '-o', 'out.wasm')
ids = [d[1:] for n, d in read('out.wasm') if n == 'build_id']
check(rc == 0 and ids == [bytes(range(20))] and out.strip() == bytes(range(20)).hex(), (rc, out, ids))
EOF'''),
dict(id='w02-strips-debugger', property='W02', file='wasm-split/src/main.rs',
 edits=[('other.name().starts_with(".debug_")', 'other.name().trim_start_matches("reloc.").starts_with(".debug_")')],
 needs='a custom section named reloc..debug_*', breaks='stripping also removes relocation sections', files={'w.py': '@w.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/w.py" <<'EOF'
write('in.wasm', [custom('reloc..debug_info', b'abc'), custom('.debug_info', b'x'), custom('build_id', bytes([16]) + bytes(16))])
rc, out = run('in.wasm', '-o', 'out.wasm', '--strip')
names = [n for n, d in read('out.wasm')]
check(rc == 0 and names == ['reloc..debug_info', 'build_id'], (rc, names))
EOF'''),
dict(id='w03-debug-without-names', property='W03', file='wasm-split/src/main.rs',
 edits=[("""    if let Some(debug_output) = cli.debug_out.as_ref() {
""", """    if let Some(debug_output) = cli.debug_out.as_ref() {
        if cli.strip_names {
            // the names are kept by neither file
            module
                .sections
                .retain(|section| !matches!(as_custom_section(section), Some(CustomSection::Name(_))));
        }
""")],
 needs='a debug output together with --strip-names', breaks='the debug companion loses the name section', files={'w.py': '@w.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/w.py" <<'EOF'
write('in.wasm', [custom('name', b''), custom('build_id', bytes([16]) + bytes(16))])
rc, out = run('in.wasm', '-o', 'out.wasm', '--strip', '--strip-names', '-d', 'd.wasm')
names = [n for n, d in read('d.wasm')]
check(rc == 0 and names == ['name', 'build_id'], (rc, names))
EOF'''),
dict(id='w04-reference-only-if-changed', property='W04', file='wasm-split/src/main.rs',
 edits=[("    let resolved_external_dwarf_url = cli.external_dwarf_url.or(debug_file_name);", "    let resolved_external_dwarf_url = cli\n        .external_dwarf_url\n        .or(debug_file_name)\n        .filter(|_| should_write_main_module || cli.out.is_some());")],
 needs='a module that already has a build id, split in place without stripping', breaks='the main file gets no external debug reference', files={'w.py': '@w.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/w.py" <<'EOF'
write('in.wasm', [custom('build_id', bytes([16]) + bytes(16))])
rc, out = run('in.wasm', '-d', 'd.wasm')
names = [n for n, d in read('in.wasm')]
check(rc == 0 and names == ['build_id', 'external_debug_info'], (rc, names))
EOF'''),
dict(id='w05-debug-file-not-flushed', property='W05', file='wasm-split/src/main.rs',
 edits=[("""        let mut writer = BufWriter::new(File::create(debug_output)?);
        module.encode_into(&mut writer)?;
        writer.flush()?;
""", """        let writer = BufWriter::new(File::create(debug_output)?);
        drop(module.encode_into(writer)?);
""")],
 needs='a full disk while the last bytes of the debug file are written', breaks='the tool succeeds with a truncated debug file', files={'w.py': '@w.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/w.py" <<'EOF'
write('in.wasm', [custom('build_id', bytes([16]) + bytes(16))])
rc, out = run('in.wasm', '-o', 'out.wasm', '-d', '/dev/full')
check(rc != 0, (rc, out))
EOF'''),
dict(id='y01-decimal-age', property='Y01', file='symsorter/src/utils.rs',
 edits=[("            Ok(debug_id.breakpad().to_string().to_lowercase())", "            Ok(format!(\n                \"{}{}\",\n                debug_id.uuid().as_simple(),\n                debug_id.appendix()\n            ))")],
 needs='an object without code id whose age is 10 or more', breaks='the file is sorted under an identifier nothing looks up', files={'s.py': '@s.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/s.py" <<'EOF'
sym('in/a.sym', 'C0BCC3F19827FE653058404B2831D9E6b')
rc, out = run('-o', 'out', 'in')
check(rc == 0 and files('out') == ['c0/bcc3f19827fe653058404b2831d9e6b/debuginfo', 'c0/bcc3f19827fe653058404b2831d9e6b/debuginfo.meta'], (rc, files('out')))
EOF'''),
dict(id='y02-compressed-overwrites', property='Y02', file='symsorter/src/app.rs',
 edits=[("        let mut out = match fs::File::create_new(&new_filename) {", "        let created = if compression_level < 19 {\n            fs::File::create_new(&new_filename)\n        } else {\n            fs::File::create(&new_filename)\n        };\n        let mut out = match created {")],
 needs='a duplicate object sorted with the highest compression levels', breaks='the existing file is replaced', files={'s.py': '@s.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/s.py" <<'EOF'
sym('in/a.sym', 'C0BCC3F19827FE653058404B2831D9E6a')
run('-o', 'out', 'in')
before = data('out/c0/bcc3f19827fe653058404b2831d9e6a/debuginfo')
rc, out = run('-o', 'out', '-zzz', 'in')
check(rc == 0 and data('out/c0/bcc3f19827fe653058404b2831d9e6a/debuginfo') == before, (rc, out))
EOF'''),
dict(id='y03-total-of-largest', property='Y03', file='symsorter/src/app.rs',
 edits=[("""                sort_files(&sort_config, vec![path])?;
            debug_files += debug_files_sorted;""", """                sort_files(&sort_config, vec![path])?;
            debug_files = debug_files_sorted.max(debug_files);""")],
 needs='several bundles sorted in one run', breaks='the total counts only the largest bundle', files={'s.py': '@s.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/s.py" <<'EOF'
sym('in1/a.sym', 'C0BCC3F19827FE653058404B2831D9E6a')
sym('in2/b.sym', 'D0BCC3F19827FE653058404B2831D9E6a')
rc, out = run('-o', 'out', '--multiple-bundles', 'in1', 'in2')
check(rc == 0 and 'Sorted 2 debug files' in out, (rc, out))
EOF'''),
dict(id='y04-bad-members-skipped', property='Y04', file='symsorter/src/app.rs',
 edits=[("            let zip_file = zip.by_index(index)?;\n", "            let Ok(zip_file) = zip.by_index(index) else {\n                continue;\n            };\n")],
 needs='a zip archive with a member whose compression method is not supported', breaks='the member is silently left out although errors are not ignored', files={'s.py': '@s.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/s.py" <<'EOF'
import zipfile
sym('x/a.sym', 'C0BCC3F19827FE653058404B2831D9E6a')
os.mkdir('in')
with zipfile.ZipFile('in/a.zip', 'w') as z:
    z.write('x/a.sym', 'a.sym')
b = bytearray(open('in/a.zip', 'rb').read())
i = b.rindex(b'PK\\x01\\x02')
b[8:10] = b[i + 10:i + 12] = (97).to_bytes(2, 'little')
open('in/a.zip', 'wb').write(b)
rc, out = run('-o', 'out', 'in')
rc2, out2 = run('-o', 'out', '-I', 'in')
check(rc == 1 and rc2 == 0, (rc, rc2, out, out2))
EOF'''),
dict(id='y05-outer-underscores', property='Y05', file='symsorter/src/utils.rs',
 edits=[("    make_bundle_id(input) == input\n", "    make_bundle_id(input) == input.trim_end_matches('_')\n")],
 needs='an explicit bundle id that ends with an underscore', breaks='the id is accepted although it is not clean', files={'s.py': '@s.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/s.py" <<'EOF'
sym('in/a.sym', 'C0BCC3F19827FE653058404B2831D9E6a')
rc, out = run('-o', 'out', '-b', 'foo_', 'in')
check(rc == 1 and files('out') == [], (rc, out, files('out')))
EOF'''),
dict(id='y06-small-files-raw', property='Y06', file='symsorter/src/app.rs',
 edits=[("        if compression_level > 0 {\n", "        if compression_level > 0 && obj.data().len() > 512 {\n")],
 needs='a small object sorted with compression', breaks='small files are stored uncompressed', files={'s.py': '@s.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/s.py" <<'EOF'
sym('in/a.sym', 'C0BCC3F19827FE653058404B2831D9E6a')
rc, out = run('-o', 'out', '-z', 'in')
check(rc == 0 and data('out/c0/bcc3f19827fe653058404b2831d9e6a/debuginfo')[:4] == bytes([0x28, 0xb5, 0x2f, 0xfd]), (rc, out))
EOF'''),
dict(id='y07-decimal-megabytes', property='Y07', file='symsorter/src/utils.rs',
 edits=[("    let max_size = 10 * 1024 * 1024; // Files over 10MB.", "    let max_size = 10_000_000; // Files over 10MB.")],
 needs='a source file between 10,000,000 and 10,485,760 bytes', breaks='the source is left out of the generated bundle', files={'s.py': '@s.py'},
 sh='''exec python3 "$(cd "$(dirname "$0")" && pwd)/s.py" <<'EOF'
import zipfile, io
for n, size in (('a.c', 10200000), ('b.c', 10485761), ('c.pch', 5)):
    open(n, 'w').write('/' * size)
sym('in/a.sym', 'C0BCC3F19827FE653058404B2831D9E6a', [os.path.abspath(n) for n in ('a.c', 'b.c', 'c.pch')])
rc, out = run('-o', 'out', '--with-sources', 'in')
p = 'out/c0/bcc3f19827fe653058404b2831d9e6a/sourcebundle'
names = [os.path.basename(n) for n in zipfile.ZipFile(p).namelist()] if os.path.exists(p) else []
check(rc == 0 and 'a.c' in names and 'b.c' not in names and 'c.pch' not in names, (rc, out, names))
EOF'''),
]
