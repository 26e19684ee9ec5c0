[dict(id=i, file=f, props=p, edits=e) for i, f, p, e in [
('gdb-get', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""    if code_id.len() < 2 {
        // this is just a panic guard. It is not meant to validate the GNU build id
        return None;
    }

    Some(format!("{}/{}", &code_id[..2], &code_id[2..]))""", """    // this is just a panic guard. It is not meant to validate the GNU build id
    let (head, tail) = (code_id.get(..2)?, code_id.get(2..)?);
    let mut path = String::with_capacity(code_id.len() + 1);
    path.push_str(head);
    path.push('/');
    path += tail;
    Some(path)""")]),
('gdb-splitat', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""    Some(format!("{}/{}", &code_id[..2], &code_id[2..]))""", """    let (prefix, rest) = code_id.split_at(2);
    Some([prefix, rest].join("/"))""")]),
('mach-iflet', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""    match identifier.code_id {
        Some(ref code_id) => code_id.as_str().parse().ok(),
        None => identifier.debug_id.as_ref().map(|debug_id| debug_id.uuid()),
    }""", """    if let Some(code_id) = &identifier.code_id {
        return Uuid::parse_str(code_id.as_str()).ok();
    }
    let debug_id = identifier.debug_id?;
    Some(debug_id.uuid())""")]),
('lldb-chunks', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""    let slice = uuid.as_bytes();

    // Format the UUID as "xxxx/xxxx/xxxx/xxxx/xxxx/xxxxxxxxxxxx"
    let mut path = String::with_capacity(37);
    for (i, byte) in slice.iter().enumerate() {
        write!(path, "{byte:02X}").ok()?;
        if i % 2 == 1 && i <= 9 {
            path.push('/');
        }
    }

    Some(path)""", """    let mut path = String::with_capacity(37);
    for i in 0..16 {
        let byte = uuid.as_bytes()[i];
        write!(&mut path, "{:02X}", byte).ok()?;
        match i {
            1 | 3 | 5 | 7 | 9 => path.push('/'),
            _ => {}
        }
    }

    Some(path)""")]),
('lldb-simple', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""    let slice = uuid.as_bytes();

    // Format the UUID as "xxxx/xxxx/xxxx/xxxx/xxxx/xxxxxxxxxxxx"
    let mut path = String::with_capacity(37);
    for (i, byte) in slice.iter().enumerate() {
        write!(path, "{byte:02X}").ok()?;
        if i % 2 == 1 && i <= 9 {
            path.push('/');
        }
    }

    Some(path)""", """    let mut hex = String::new();
    write!(hex, "{:X}", uuid.as_simple()).ok()?;
    let parts = [&hex[..4], &hex[4..8], &hex[8..12], &hex[12..16], &hex[16..20], &hex[20..]];
    Some(parts.join("/"))""")]),
('casing-helper', 'symbolicator-sources/src/paths.rs', 'S01,S02,S05,S08', [("""fn get_pdb_symstore_path(identifier""", """/// Applies the casing of SSQP to a file name.
fn ssqp_name(name: &str, ssqp_casing: bool) -> Cow<'_, str> {
    match ssqp_casing {
        true => name.to_lowercase().into(),
        false => name.into(),
    }
}

fn get_pdb_symstore_path(identifier"""), ("""    let debug_file = if ssqp_casing {
        Cow::Owned(debug_file.to_lowercase())
    } else {
        Cow::Borrowed(debug_file)
    };
""", """    let debug_file = ssqp_name(debug_file, ssqp_casing);
"""), ("""    let code_file = if ssqp_casing {
        Cow::Owned(code_file.to_lowercase())
    } else {
        Cow::Borrowed(code_file)
    };
    let code_id = if""", """    let code_file = ssqp_name(code_file, ssqp_casing);
    let code_id = if"""), ("""            let code_file = if ssqp_casing {
                Cow::Owned(code_file.to_lowercase())
            } else {
                Cow::Borrowed(code_file)
            };
            Some""", """            let code_file = ssqp_name(code_file, ssqp_casing);
            Some"""), ("""            let code_file = if ssqp_casing {
                Cow::Owned(code_file.to_lowercase())
            } else {
                Cow::Borrowed(code_file)
            };
            let uuid""", """            let code_file = ssqp_name(code_file, ssqp_casing);
            let uuid""")]),
('pdb-match', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""    let appendix = if identifier.object_type == ObjectType::PeDotnet {
""", """    let is_portable = matches!(identifier.object_type, ObjectType::PeDotnet);
    let appendix = if is_portable {
"""), ("""    let debug_id = if ssqp_casing {
        format!("{:x}{:X}", debug_id.uuid().as_simple(), appendix)
    } else {
        format!("{:X}{:x}", debug_id.uuid().as_simple(), appendix)
    };

    Some(format!("{debug_file}/{debug_id}/{debug_file}"))""", """    let uuid = debug_id.uuid();
    let uuid = uuid.as_simple();
    let (id, age) = if !ssqp_casing {
        (format!("{uuid:X}"), format!("{appendix:x}"))
    } else {
        (format!("{uuid:x}"), format!("{appendix:X}"))
    };

    Some(format!("{0}/{1}{2}/{0}", debug_file, id, age))""")]),
('pe-splitoff', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""        let timestamp = code_id.get(..8)?;
        let size_of_image = code_id.get(8..)?;
        Cow::Owned(format!(
            "{}{}",
            timestamp.to_uppercase(),
            size_of_image.to_lowercase()
        ))""", """        let mut result = code_id.get(..8)?.to_uppercase();
        result.push_str(&code_id.get(8..)?.to_lowercase());
        Cow::Owned(result)""")]),
('breakpad-rsplit', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""        .strip_suffix(".exe")
        .or_else(|| debug_file.strip_suffix(".dll"))
        .or_else(|| debug_file.strip_suffix(".pdb"))
        .unwrap_or(debug_file);
""", """        .rsplit_once('.')
        .filter(|(_, ext)| matches!(*ext, "exe" | "dll" | "pdb"))
        .map_or(debug_file, |(stem, _)| stem);
""")]),
('breakpad-iter', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""    let new_debug_file = debug_file
        .strip_suffix(".exe")
        .or_else(|| debug_file.strip_suffix(".dll"))
        .or_else(|| debug_file.strip_suffix(".pdb"))
        .unwrap_or(debug_file);
""", """    let new_debug_file = [".exe", ".dll", ".pdb"]
        .iter()
        .find_map(|suffix| debug_file.strip_suffix(suffix))
        .unwrap_or(debug_file);
"""), ("""    Some(format!(
        "{}/{}/{}.sym",
        debug_file,
        debug_id.breakpad(),
        new_debug_file
    ))""", """    let id = debug_id.breakpad().to_string();
    Some(debug_file.to_owned() + "/" + &id + "/" + new_debug_file + ".sym")""")]),
('breakpad-loop', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""    let new_debug_file = debug_file
        .strip_suffix(".exe")
        .or_else(|| debug_file.strip_suffix(".dll"))
        .or_else(|| debug_file.strip_suffix(".pdb"))
        .unwrap_or(debug_file);
""", """    let mut new_debug_file = debug_file;
    for suffix in [".exe", ".dll", ".pdb"] {
        if let Some(stem) = debug_file.strip_suffix(suffix) {
            new_debug_file = stem;
            break;
        }
    }
""")]),
('native-map', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""            if let Some(mut path) = get_gdb_path(identifier) {
                path.push_str(".debug");
                vec![path]
            } else {
                vec![]
            }""", """            let path = get_gdb_path(identifier).map(|path| format!("{path}.debug"));
            Vec::from_iter(path)"""), ("""            if let Some(mut path) = get_lldb_path(identifier) {
                path.push_str(".app");
                vec![path]
            } else {
                vec![]
            }""", """            let Some(path) = get_lldb_path(identifier) else {
                return Vec::new();
            };
            vec![path + ".app"]""")]),
('native-bundle', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""            primary_path.push_str(".src.zip");
            let mut rv = vec![];
            if let Some(mut breakpad_path) = get_breakpad_path(identifier) {
                breakpad_path.truncate(breakpad_path.len() - 4);
                breakpad_path.push_str(".src.zip");
                if breakpad_path != primary_path {
                    rv.push(breakpad_path);
                }
            }
            rv.push(primary_path);
            rv""", """            primary_path += ".src.zip";
            let breakpad_path = get_breakpad_path(identifier)
                .map(|path| format!("{}.src.zip", path.strip_suffix(".sym").unwrap_or(&path)))
                .filter(|path| *path != primary_path);
            breakpad_path.into_iter().chain([primary_path]).collect()""")]),
('native-bundle2', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""                breakpad_path.truncate(breakpad_path.len() - 4);
                breakpad_path.push_str(".src.zip");
                if breakpad_path != primary_path {
                    rv.push(breakpad_path);
                }
            }
            rv.push(primary_path);
            rv""", """                if let Some(stem) = breakpad_path.strip_suffix(".sym") {
                    breakpad_path = format!("{stem}.src.zip");
                }
                rv.push(breakpad_path);
            }
            if !rv.contains(&primary_path) {
                rv.push(primary_path);
            }
            rv""")]),
('native-bundle3', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""                    if let Some(mut base_path) = get_pdb_symstore_path(identifier, false) {
                        if let Some(cutoff) = base_path.rfind('.') {
                            base_path.truncate(cutoff);
                        }
                        base_path
                    } else {
                        return vec![];
                    }""", """                    let Some(base_path) = get_pdb_symstore_path(identifier, false) else {
                        return vec![];
                    };
                    match base_path.rsplit_once('.') {
                        Some((stem, _)) => stem.to_string(),
                        None => base_path,
                    }""")]),
('symstore-qmark', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""            let mut base_path = get_symstore_path(original_file_type, identifier, ssqp_casing)?;
            if let Some(cutoff) = base_path.rfind('.') {
                base_path.truncate(cutoff);
            }
            base_path.push_str(".src.zip");
            Some(base_path)""", """            let base_path = get_symstore_path(original_file_type, identifier, ssqp_casing)?;
            let end = base_path.rfind('.').unwrap_or(base_path.len());
            Some(format!("{}.src.zip", &base_path[..end]))""")]),
('index2-bytes', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""    if let Some(prefix) = rv.get(..2) {
        if prefix.ends_with('/') || prefix.ends_with('.') {
            return Some(format!("{}/{}", &prefix[..1], rv));
        } else {
            return Some(format!("{prefix}/{rv}"));
        }
    }
    Some(rv)""", """    let prefix = match rv.get(..2) {
        None => return Some(rv),
        Some(prefix) => prefix.strip_suffix(['/', '.']).unwrap_or(prefix),
    };
    Some(format!("{prefix}/{rv}"))""")]),
('debuginfod', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08', [("""        FileType::ElfCode => {
            let code_id = identifier.code_id.as_ref()?.as_str();
            Some(format!("{code_id}/executable"))
        }
        FileType::ElfDebug => {
            let code_id = identifier.code_id.as_ref()?.as_str();
            Some(format!("{code_id}/debuginfo"))
        }
""", """        FileType::ElfCode => identifier.code_id.as_ref().map(|id| format!("{id}/executable")),
        FileType::ElfDebug => {
            let code_id = identifier.code_id.clone()?;
            Some(format!("{}/debuginfo", code_id.as_str()))
        }
""")]),
('target-id-match', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08,Y01', [("""            if identifier.code_id.is_none() {
                Some(Cow::Owned(
                    identifier.debug_id?.uuid().as_simple().to_string(),
                ))
            } else {
                Some(Cow::Borrowed(identifier.code_id.as_ref()?.as_str()))
            }""", """            match &identifier.code_id {
                Some(code_id) => Some(code_id.as_str().into()),
                None => identifier
                    .debug_id
                    .map(|id| Cow::from(id.uuid().simple().to_string())),
            }""")]),
('target-id-loop', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08,Y01', [("""    match filetype {
        // For these we fall back to the identifier's object type.
        FileType::SourceBundle | FileType::Breakpad | FileType::Il2cpp => {
            let filetype = match identifier.object_type {
                ObjectType::Elf => FileType::ElfCode,
                ObjectType::Macho => FileType::MachCode,
                ObjectType::Pe => FileType::Pe,
                ObjectType::Wasm => FileType::WasmCode,
                ObjectType::PeDotnet => FileType::PortablePdb,
                // guess we're out of luck.
                ObjectType::Unknown => return None,
            };
            get_search_target_id(filetype, identifier)
        }
""", """    // For these we fall back to the identifier's object type.
    let filetype = if matches!(
        filetype,
        FileType::SourceBundle | FileType::Breakpad | FileType::Il2cpp
    ) {
        match identifier.object_type {
            ObjectType::Elf => FileType::ElfCode,
            ObjectType::Macho => FileType::MachCode,
            ObjectType::Pe => FileType::Pe,
            ObjectType::Wasm => FileType::WasmCode,
            ObjectType::PeDotnet => FileType::PortablePdb,
            ObjectType::Unknown => return None,
        }
    } else {
        filetype
    };
    match filetype {
        FileType::SourceBundle | FileType::Breakpad | FileType::Il2cpp => None,
""")]),
('unified-splitat', 'symbolicator-sources/src/paths.rs', 'S01,S02,S08,Y01', [("""    Some(format!("{}/{}/{}", id.get(..2)?, id.get(2..)?, suffix))""", """    if id.len() < 2 || !id.is_char_boundary(2) {
        return None;
    }
    let (prefix, rest) = id.split_at(2);
    Some([prefix, rest, suffix].join("/"))""")]),
('dirpaths-collect', 'symbolicator-sources/src/paths.rs', 'S01,S02,S05,S08', [("""    for path in paths.iter_mut() {
        match directory_layout.casing {
            FilenameCasing::Lowercase => path.make_ascii_lowercase(),
            FilenameCasing::Uppercase => path.make_ascii_uppercase(),
            FilenameCasing::Default => (),
        }
    }
""", """    let casing = directory_layout.casing;
    paths = paths
        .into_iter()
        .map(|path| match casing {
            FilenameCasing::Default => path,
            FilenameCasing::Lowercase => path.to_ascii_lowercase(),
            FilenameCasing::Uppercase => path.to_ascii_uppercase(),
        })
        .collect();
"""), ("""        paths = paths
            .into_iter()
            .flat_map(|path| {
                let mut compressed_path = path.clone();
                compressed_path.pop();
                compressed_path.push('_');
                Some(compressed_path).into_iter().chain(Some(path))
            })
            .collect();
    };

    paths""", """        let mut all_paths = Vec::with_capacity(paths.len() * 2);
        for path in paths {
            let mut compressed_path = path.clone();
            if compressed_path.pop().is_some() {
                compressed_path.push('_');
            } else {
                compressed_path.push('_');
            }
            all_paths.push(compressed_path);
            all_paths.push(path);
        }
        return all_paths;
    }

    paths""")]),
('dirpaths-option', 'symbolicator-sources/src/paths.rs', 'S01,S02,S05,S08', [("""    let mut paths: Vec<String> = match directory_layout.ty {
        DirectoryLayoutType::Native => get_native_paths(filetype, identifier),
        DirectoryLayoutType::Symstore => get_symstore_path(filetype, identifier, false)
            .into_iter()
            .collect(),
        DirectoryLayoutType::SymstoreIndex2 => get_symstore_index2_path(filetype, identifier)
            .into_iter()
            .collect(),
        DirectoryLayoutType::Ssqp => get_symstore_path(filetype, identifier, true)
            .into_iter()
            .collect(),
        DirectoryLayoutType::Debuginfod => get_debuginfod_path(filetype, identifier)
            .into_iter()
            .collect(),
        DirectoryLayoutType::Unified => {
            get_unified_path(filetype, identifier).into_iter().collect()
        }
        DirectoryLayoutType::SlashSymbols => {
            get_slashsymbols_path(identifier).into_iter().collect()
        }
    };
""", """    let single = match directory_layout.ty {
        DirectoryLayoutType::Native => None,
        DirectoryLayoutType::Symstore => get_symstore_path(filetype, identifier, false),
        DirectoryLayoutType::SymstoreIndex2 => get_symstore_index2_path(filetype, identifier),
        DirectoryLayoutType::Ssqp => get_symstore_path(filetype, identifier, true),
        DirectoryLayoutType::Debuginfod => get_debuginfod_path(filetype, identifier),
        DirectoryLayoutType::Unified => get_unified_path(filetype, identifier),
        DirectoryLayoutType::SlashSymbols => get_slashsymbols_path(identifier),
    };
    let mut paths = Vec::new();
    if directory_layout.ty == DirectoryLayoutType::Native {
        paths.extend(get_native_paths(filetype, identifier));
    }
    paths.extend(single);
""")]),
('parse-splitonce', 'symbolicator-sources/src/paths.rs', 'S05', [("""    let mut split = path.splitn(3, '/');
    let leading_fn = split.next()?;
    let signature = split.next()?;
    let trailing_fn = split.next()?;
""", """    let (leading_fn, rest) = path.split_once('/')?;
    let (signature, trailing_fn) = rest.split_once('/')?;
""")]),
('parse-collect', 'symbolicator-sources/src/paths.rs', 'S05', [("""    let mut split = path.splitn(3, '/');
    let leading_fn = split.next()?;
    let signature = split.next()?;
    let trailing_fn = split.next()?;
""", """    let parts: Vec<&str> = path.splitn(3, '/').collect();
    let &[leading_fn, signature, trailing_fn] = parts.as_slice() else {
        return None;
    };
""")]),
('parse-helper', 'symbolicator-sources/src/paths.rs', 'S05', [("""/// Parses a symstore path into""", """fn code_object(object_type: ObjectType, code_id: &str, code_file: &str) -> ObjectId {
    ObjectId {
        code_id: Some(CodeId::new(code_id.into())),
        code_file: Some(code_file.into()),
        object_type,
        ..Default::default()
    }
}

/// Parses a symstore path into"""), ("""        Some((
            &[FileType::ElfDebug],
            ObjectId {
                code_id: Some(CodeId::new(signature[16..].into())),
                code_file: Some(leading_fn.into()),
                debug_id: None,
                debug_file: None,
                debug_checksum: None,
                object_type: ObjectType::Elf,
            },
        ))""", """        let object_id = code_object(ObjectType::Elf, &signature[16..], leading_fn);
        Some((&[FileType::ElfDebug], object_id))"""), ("""        Some((
            &[FileType::MachCode],
            ObjectId {
                code_id: Some(CodeId::new(signature[10..].into())),
                code_file: Some(leading_fn.into()),
                debug_id: None,
                debug_file: None,
                debug_checksum: None,
                object_type: ObjectType::Macho,
            },
        ))""", """        const PREFIX: usize = "mach-uuid-".len();
        Some((
            &[FileType::MachCode],
            code_object(ObjectType::Macho, signature.split_at(PREFIX).1, leading_fn),
        ))""")]),
('parse-strip', 'symbolicator-sources/src/paths.rs', 'S05', [("""    } else if signature_lower.starts_with("elf-buildid-") {
        Some((
            &[FileType::ElfCode],
            ObjectId {
                code_id: Some(CodeId::new(signature[12..].into())),""", """    } else if let Some(code_id) = signature_lower.strip_prefix("elf-buildid-") {
        Some((
            &[FileType::ElfCode],
            ObjectId {
                code_id: Some(CodeId::new(code_id.to_string())),""")]),
('patterns-any', 'symbolicator-sources/src/paths.rs', 'S04', [("""    for pattern in patterns {
        if let Some(ref path) = object_id.code_file {
            if pattern.matches_with(&canonicalize_path(path), GLOB_OPTIONS) {
                return true;
            }
        }

        if let Some(ref path) = object_id.debug_file {
            if pattern.matches_with(&canonicalize_path(path), GLOB_OPTIONS) {
                return true;
            }
        }
    }

    false""", """    let paths = [&object_id.code_file, &object_id.debug_file];
    patterns.iter().any(|pattern| {
        paths
            .iter()
            .filter_map(|path| path.as_deref())
            .any(|path| pattern.matches_with(&canonicalize_path(path), GLOB_OPTIONS))
    })""")]),
('patterns-swap', 'symbolicator-sources/src/paths.rs', 'S04', [("""    if patterns.is_empty() {
        return true;
    }

    for pattern in patterns {
        if let Some(ref path) = object_id.code_file {
            if pattern.matches_with(&canonicalize_path(path), GLOB_OPTIONS) {
                return true;
            }
        }

        if let Some(ref path) = object_id.debug_file {
            if pattern.matches_with(&canonicalize_path(path), GLOB_OPTIONS) {
                return true;
            }
        }
    }

    false""", """    let code_file = object_id.code_file.as_deref().map(canonicalize_path);
    let debug_file = object_id.debug_file.as_deref().map(canonicalize_path);
    let mut matched = patterns.is_empty();
    for pattern in patterns {
        for path in code_file.iter().chain(debug_file.iter()) {
            matched |= pattern.matches_with(path, GLOB_OPTIONS);
        }
    }
    matched""")]),
]]
