[dict(id=i, file=f, props=p, edits=e) for i, f, p, e in [
('y-bundleid', 'symsorter/src/utils.rs', 'Y03,Y01', [("""    BAD_CHARS_RE
        .replace_all(input, "_")
        .trim_matches(&['_'][..])
        .to_string()
""", """    let replaced = BAD_CHARS_RE.replace_all(input, "_");
    replaced.trim_matches('_').to_owned()
"""), ("""    make_bundle_id(input) == input
""", """    let safe = make_bundle_id(input);
    safe.as_str() == input
""")]),
('y-unified', 'symsorter/src/utils.rs', 'Y01,Y02,Y06,Y03', [("""    if obj.file_format() == FileFormat::Pe || obj.code_id().is_none() {
        let debug_id = obj.debug_id();
        if debug_id.is_nil() {
            Err(anyhow!("failed to generate debug identifier"))
        } else {
            Ok(debug_id.breakpad().to_string().to_lowercase())
        }
    } else {
        Ok(obj.code_id().as_ref().unwrap().as_str().to_string())
    }
""", """    match obj.code_id() {
        Some(code_id) if obj.file_format() != FileFormat::Pe => Ok(code_id.to_string()),
        _ => {
            let debug_id = obj.debug_id();
            anyhow::ensure!(!debug_id.is_nil(), "failed to generate debug identifier");
            Ok(debug_id.breakpad().to_string().to_lowercase())
        }
    }
""")]),
('y-unified2', 'symsorter/src/utils.rs', 'Y01,Y02,Y06,Y03', [("""    if obj.file_format() == FileFormat::Pe || obj.code_id().is_none() {
        let debug_id = obj.debug_id();
        if debug_id.is_nil() {
            Err(anyhow!("failed to generate debug identifier"))
        } else {
            Ok(debug_id.breakpad().to_string().to_lowercase())
        }
    } else {
        Ok(obj.code_id().as_ref().unwrap().as_str().to_string())
    }
""", """    if obj.file_format() != FileFormat::Pe {
        if let Some(code_id) = obj.code_id() {
            return Ok(code_id.as_str().to_owned());
        }
    }

    let debug_id = obj.debug_id();
    if debug_id.is_nil() {
        bail!("failed to generate debug identifier");
    }
    let breakpad_id = format!("{}", debug_id.breakpad());
    Ok(breakpad_id.to_ascii_lowercase())
""")]),
('y-target', 'symsorter/src/utils.rs', 'Y01,Y02,Y03', [("""    let (prefix, rest) = id
        .get(..2)
        .zip(id.get(2..))
        .ok_or_else(|| anyhow!("unsupported identifier {id:?}"))?;
    Ok(format!("{prefix}/{rest}/{suffix}").into())
""", """    let Some((prefix, rest)) = id.split_at_checked(2) else {
        bail!("unsupported identifier {id:?}");
    };
    Ok(PathBuf::from(prefix).join(rest).join(suffix))
""")]),
('y-target2', 'symsorter/src/utils.rs', 'Y01,Y02,Y03', [("""    let (prefix, rest) = id
        .get(..2)
        .zip(id.get(2..))
        .ok_or_else(|| anyhow!("unsupported identifier {id:?}"))?;
    Ok(format!("{prefix}/{rest}/{suffix}").into())
""", """    match (id.get(..2), id.get(2..)) {
        (Some(prefix), Some(rest)) => Ok(PathBuf::from(format!("{prefix}/{rest}/{suffix}"))),
        _ => Err(anyhow!("unsupported identifier {id:?}")),
    }
"""), ("""    // match the unified format here.
    let suffix = match obj.kind() {
        ObjectKind::Debug => "debuginfo",
        ObjectKind::Sources if obj.file_format() == FileFormat::SourceBundle => "sourcebundle",
        ObjectKind::Library | ObjectKind::Executable => "executable",
        _ => bail!("unsupported file"),
    };
""", """    let suffix = target_suffix(obj).ok_or_else(|| anyhow!("unsupported file"))?;
"""), ("""/// Returns the intended target filename for an object.
""", """fn target_suffix(obj: &Object) -> Option<&'static str> {
    match (obj.kind(), obj.file_format()) {
        (ObjectKind::Debug, _) => Some("debuginfo"),
        (ObjectKind::Sources, FileFormat::SourceBundle) => Some("sourcebundle"),
        (ObjectKind::Library, _) | (ObjectKind::Executable, _) => Some("executable"),
        _ => None,
    }
}

/// Returns the intended target filename for an object.
""")]),
('y-filter', 'symsorter/src/utils.rs', 'Y07,Y04,Y05', [("""    if let Ok(meta) = fs::metadata(path) {
        let item_size = meta.len();
        if meta.len() > max_size {
            log!(
                "Source exceeded maximum item size limit ({}). {}",
                item_size,
                path
            );
            return false;
        }
    }
    true
""", """    let size = match fs::metadata(path) {
        Ok(meta) => meta.len(),
        Err(_) => return true,
    };
    if size <= max_size {
        return true;
    }
    log!("Source exceeded maximum item size limit ({size}). {path}");
    false
""")]),
('y-filter2', 'symsorter/src/utils.rs', 'Y07,Y04,Y05', [("""    if let Ok(meta) = fs::metadata(path) {
        let item_size = meta.len();
        if meta.len() > max_size {
""", """    if let Some(item_size) = fs::metadata(path).ok().map(|meta| meta.len()) {
        if item_size > max_size {
"""), ("""    // Ignore pch files.
    if path.ends_with(".pch") {
        log!("Skipping precompiled header: {}", path);
        return false;
    }

    // Ignore files embedded in the object itself.
    if embedded_source.is_some() {
        log!("Skipping embedded source file: {}", path);
        return false;
    }
""", """    // Ignore files embedded in the object itself.
    if let Some(_) = embedded_source {
        log!("Skipping embedded source file: {}", path);
        return false;
    }

    // Ignore pch files.
    if path.ends_with(".pch") {
        log!("Skipping precompiled header: {}", path);
        return false;
    }
""")]),
('y-bundle', 'symsorter/src/utils.rs', 'Y07,Y04,Y05,Y06', [("""        if matches!(get_unified_id(&obj), Ok(generated_id) if unified_id == generated_id) {
            let mut out = Vec::<u8>::new();
            let writer =
                SourceBundleWriter::start(Cursor::new(&mut out)).map_err(|e| anyhow!(e))?;
            let name = path.file_name().unwrap().to_string_lossy();
            if writer
                .write_object_with_filter(&obj, &name, filter_bad_sources)
                .map_err(|e| anyhow!(e))?
            {
                return Ok(Some(ByteView::from_vec(out)));
            }
        }
    }
""", """        let Ok(generated_id) = get_unified_id(&obj) else {
            continue;
        };
        if generated_id != unified_id {
            continue;
        }

        let mut out = Vec::<u8>::new();
        let writer = SourceBundleWriter::start(Cursor::new(&mut out)).map_err(|e| anyhow!(e))?;
        let name = path.file_name().unwrap().to_string_lossy();
        let written = writer
            .write_object_with_filter(&obj, &name, filter_bad_sources)
            .map_err(|e| anyhow!(e))?;
        if written {
            return Ok(Some(ByteView::from_vec(out)));
        }
    }
""")]),
('y-bundle2', 'symsorter/src/utils.rs', 'Y07,Y04,Y05,Y06', [("""        if matches!(get_unified_id(&obj), Ok(generated_id) if unified_id == generated_id) {
""", """        if get_unified_id(&obj).is_ok_and(|id| id == unified_id) {
"""), ("""    let bv = ByteView::open(path)?;
    let archive = Archive::parse(&bv).map_err(|e| anyhow!(e))?;
""", """    let bv = match ByteView::open(path) {
        Ok(bv) => bv,
        Err(err) => return Err(err.into()),
    };
    let archive = Archive::parse(&bv).map_err(anyhow::Error::new)?;
""")]),
('y-level', 'symsorter/src/app.rs', 'Y01,Y02,Y04,Y05', [("""    let compression_level = match sort_config.compression_level {
        0 => 0,
        1 => 3,
        2 => 10,
        3 => 19,
        _ => 22,
    };
""", """    let compression_level = zstd_level(sort_config.compression_level);
"""), ("""fn process_file(
""", """fn zstd_level(level: u8) -> i32 {
    const LEVELS: [i32; 4] = [0, 3, 10, 19];
    LEVELS.get(usize::from(level)).copied().unwrap_or(22)
}

fn process_file(
""")]),
('y-kind', 'symsorter/src/app.rs', 'Y01,Y02,Y04,Y05,Y06', [("""        if !matches!(
            obj.kind(),
            ObjectKind::Executable | ObjectKind::Library | ObjectKind::Debug | ObjectKind::Sources
        ) {
            continue;
        }
""", """        match obj.kind() {
            ObjectKind::Executable
            | ObjectKind::Library
            | ObjectKind::Debug
            | ObjectKind::Sources => {}
            _ => continue,
        }
""")]),
('y-refs', 'symsorter/src/app.rs', 'Y01,Y02,Y03,Y04,Y05,Y06', [("""        fs::create_dir_all(new_filename.parent().unwrap())?;

        if let Some(bundle_id) = &sort_config.bundle_id {
            let refs_path = new_filename.parent().unwrap().join("refs");
            fs::create_dir_all(&refs_path)?;
            fs::write(refs_path.join(bundle_id), b"")?;
        }
""", """        let directory = new_filename.parent().unwrap();
        fs::create_dir_all(directory)?;
        write_ref(directory, sort_config)?;
"""), ("""fn process_file(
""", """fn write_ref(directory: &std::path::Path, sort_config: &SortConfig) -> io::Result<()> {
    let Some(bundle_id) = &sort_config.bundle_id else {
        return Ok(());
    };
    let refs_path = directory.join("refs");
    fs::create_dir_all(&refs_path)?;
    fs::write(refs_path.join(bundle_id), b"")
}

fn process_file(
""")]),
('y-copy', 'symsorter/src/app.rs', 'Y01,Y02,Y04,Y05', [("""        if compression_level > 0 {
            copy_encode(obj.data(), &mut out, compression_level)?;
        } else {
            io::copy(&mut obj.data(), &mut out)?;
        }
        let unified_id""", """        if compression_level == 0 {
            io::Write::write_all(&mut out, obj.data())?;
        } else {
            copy_encode(obj.data(), out, compression_level)?;
        }
        let unified_id""")]),
('y-create', 'symsorter/src/app.rs', 'Y01,Y02,Y04,Y05', [("""        let mut out = match fs::File::create_new(&new_filename) {
            Ok(out) => out,
""", """        let created = fs::OpenOptions::new()
            .write(true)
            .create_new(true)
            .open(&new_filename);
        let mut out = match created {
            Ok(out) => out,
"""), ("""        let meta = DebugIdMeta {
            name: Some(filename.clone()),
            arch: Some(obj.arch()),
            file_format: Some(obj.file_format()),
        };

        fs::write(
            new_filename.with_extension("meta"),
            serde_json::to_vec(&meta)?,
        )?;
""", """        let name = Some(filename.to_owned());
        let arch = Some(obj.arch());
        let file_format = Some(obj.file_format());
        let meta = serde_json::to_vec(&DebugIdMeta {
            name,
            arch,
            file_format,
        })?;
        let meta_path = new_filename.with_extension("meta");
        fs::write(&meta_path, &meta)?;
""")]),
('y-idfirst', 'symsorter/src/app.rs', 'Y01,Y02,Y04,Y05,Y06', [("""        let new_filename = root.join(maybe_ignore_error!(get_target_filename(&obj)));
""", """        let target = maybe_ignore_error!(get_target_filename(&obj));
        let unified_id = maybe_ignore_error!(get_unified_id(&obj));
        let new_filename = root.join(target);
"""), ("""        let unified_id = maybe_ignore_error!(get_unified_id(&obj));
        rv.push(""", """        rv.push("""), ("""                    get_unified_id(&obj)?,
""", """                    unified_id,
""")]),
('y-nomacro', 'symsorter/src/app.rs', 'Y01,Y02,Y04,Y05,Y06', [("""    let archive = maybe_ignore_error!(
        Archive::parse(&bv).map_err(|e| anyhow!("failed to parse archive {}", e))
    );
""", """    let archive = match Archive::parse(&bv) {
        Ok(archive) => archive,
        Err(err) => {
            let err = anyhow!("failed to parse archive {}", err);
            if !RunConfig::get().ignore_errors {
                return Err(err).context(format!("failed to process file {}", filename));
            }
            eprintln!(
                "{}: ignored error {} ({})",
                style("error").red().bold(),
                err,
                style(filename).cyan(),
            );
            return Ok(rv);
        }
    };
""")]),
('y-zip', 'symsorter/src/app.rs', 'Y04,Y05,Y06,Y03', [("""    let result: Result<()> = (|| {
        let mut zip = ZipArchive::new(io::Cursor::new(bv))?;
        for index in 0..zip.len() {
            let zip_file = zip.by_index(index)?;
            let name = zip_file.name().rsplit('/').next().unwrap().to_string();
            let bv = ByteView::read(zip_file)?;
            if Archive::peek(&bv) != FileFormat::Unknown {
                debug_ids.lock().unwrap().extend(
                    process_file(sort_config, bv, name)?
                        .into_iter()
                        .map(|x| x.0),
                );
            }
        }
        Ok(())
    })();
    if RunConfig::get().ignore_errors {
        if let Err(err) = &result {
""", """    let result = process_zip_entries(sort_config, bv, debug_ids);
    if RunConfig::get().ignore_errors {
        if let Err(err) = &result {
"""), ("""fn process_zip_archive(
""", """fn process_zip_entries(
    sort_config: &SortConfig,
    bv: ByteView,
    debug_ids: &Mutex<Vec<String>>,
) -> Result<()> {
    let mut zip = ZipArchive::new(io::Cursor::new(bv))?;
    for index in 0..zip.len() {
        let zip_file = zip.by_index(index)?;
        let name = match zip_file.name().rsplit_once('/') {
            Some((_, name)) => name.to_string(),
            None => zip_file.name().to_string(),
        };
        let bv = ByteView::read(zip_file)?;
        if Archive::peek(&bv) == FileFormat::Unknown {
            continue;
        }
        for (debug_id, _) in process_file(sort_config, bv, name)? {
            debug_ids.lock().unwrap().push(debug_id);
        }
    }
    Ok(())
}

fn process_zip_archive(
""")]),
('y-zip2', 'symsorter/src/app.rs', 'Y04,Y05,Y06,Y03', [("""    if RunConfig::get().ignore_errors {
        if let Err(err) = &result {
            eprintln!(
                "{}: ignored error {} ({})",
                style("error").red().bold(),
                err,
                style(zip_file_name).cyan(),
            );
        }
        Ok(())
    } else {
        result.with_context(|| format!("failed to process file {}", zip_file_name))
    }
""", """    match result {
        Err(err) if RunConfig::get().ignore_errors => {
            eprintln!(
                "{}: ignored error {} ({})",
                style("error").red().bold(),
                err,
                style(zip_file_name).cyan(),
            );
            Ok(())
        }
        result => result.with_context(|| format!("failed to process file {}", zip_file_name)),
    }
""")]),
('y-sortone', 'symsorter/src/app.rs', 'Y03,Y04,Y05,Y06,Y07', [("""        .map(|entry| {
            let path = entry.path();
            let bv = match ByteView::open(path) {
                Ok(bv) => bv,
                Err(_) => return Ok(()),
            };

            // zip archive
            if bv.get(..2) == Some(b"PK") {
                process_zip_archive(sort_config, bv, path.to_string_lossy().deref(), &debug_ids)?;

            // object file directly
            } else if Archive::peek(&bv) != FileFormat::Unknown {
                for (unified_id, object_kind) in process_file(
                    sort_config,
                    bv,
                    path.file_name().unwrap().to_string_lossy().to_string(),
                )? {
                    if sort_config.with_sources {
                        let mut source_candidates = source_candidates.lock().unwrap();
                        if object_kind == ObjectKind::Sources {
                            source_candidates.insert(unified_id.clone(), None);
                        } else if object_kind == ObjectKind::Debug
                            && !source_candidates.contains_key(&unified_id)
                        {
                            source_candidates.insert(unified_id.clone(), Some(path.to_path_buf()));
                        }
                    }
                    debug_ids.lock().unwrap().push(unified_id);
                }
            }

            Ok(())
        })
        .collect::<Result<Vec<_>>>()?;
""", """        .try_for_each(|entry| sort_one(sort_config, entry.path(), &source_candidates, &debug_ids))?;
"""), ("""fn sort_files(""", """fn sort_one(
    sort_config: &SortConfig,
    path: &std::path::Path,
    source_candidates: &Mutex<HashMap<String, Option<PathBuf>>>,
    debug_ids: &Mutex<Vec<String>>,
) -> Result<()> {
    let Ok(bv) = ByteView::open(path) else {
        return Ok(());
    };

    // zip archive
    if bv.starts_with(b"PK") {
        return process_zip_archive(sort_config, bv, &path.to_string_lossy(), debug_ids);
    }

    // object file directly
    if Archive::peek(&bv) == FileFormat::Unknown {
        return Ok(());
    }
    let name = path.file_name().unwrap().to_string_lossy().into_owned();
    for (unified_id, object_kind) in process_file(sort_config, bv, name)? {
        if sort_config.with_sources {
            let mut candidates = source_candidates.lock().unwrap();
            match object_kind {
                ObjectKind::Sources => {
                    candidates.insert(unified_id.clone(), None);
                }
                ObjectKind::Debug => {
                    candidates
                        .entry(unified_id.clone())
                        .or_insert_with(|| Some(path.to_path_buf()));
                }
                _ => {}
            }
        }
        debug_ids.lock().unwrap().push(unified_id);
    }
    Ok(())
}

fn sort_files(""")]),
('y-sources', 'symsorter/src/app.rs', 'Y04,Y05,Y06,Y07', [("""                let source_bundle = match create_source_bundle(&path, &unified_id)? {
                    Some(source_bundle) => source_bundle,
                    None => return Ok(0),
                };
""", """                let Some(source_bundle) = create_source_bundle(&path, &unified_id)? else {
                    return Ok(0);
                };
"""), ("""            .reduce(|| Ok(0), |sum, res| Ok(sum? + res?))?
""", """            .try_reduce(|| 0, |a, b| Ok(a + b))?;
"""), ("""                let created = processed_objects.len();

                debug_ids
                    .lock()
                    .unwrap()
                    .extend(processed_objects.into_iter().map(|x| x.0));

                Ok(created)
""", """                let new_ids: Vec<String> = processed_objects.into_iter().map(|(id, _)| id).collect();
                let created = new_ids.len();
                debug_ids.lock().unwrap().extend(new_ids);
                Ok(created)
""")]),
('y-sources2', 'symsorter/src/app.rs', 'Y04,Y05,Y06,Y07', [("""            .reduce(|| Ok(0), |sum, res| Ok(sum? + res?))?
""", """            .collect::<Result<Vec<usize>>>()?
            .into_iter()
            .sum();
"""), ("""            .filter_map(|(id, path)| Some((id, path?)))
""", """            .filter_map(|(id, path)| path.map(|path| (id, path)))
"""), ("""    let debug_ids = debug_ids.into_inner()?;
    let num_debug_ids = debug_ids.len();
""", """    let debug_ids: Vec<String> = debug_ids.into_inner()?;
    let num_debug_ids = debug_ids.len();
""")]),
('y-meta', 'symsorter/src/app.rs', 'Y03,Y05,Y04', [("""        let bundle_meta = BundleMeta {
            name: bundle_id.clone(),
            timestamp: Utc::now(),
            debug_ids,
        };

        let bundle_meta_filename = RunConfig::get().output.join("bundles").join(bundle_id);
        fs::create_dir_all(bundle_meta_filename.parent().unwrap())?;
        fs::write(&bundle_meta_filename, serde_json::to_vec(&bundle_meta)?)?;
""", """        let bundles = RunConfig::get().output.join("bundles");
        fs::create_dir_all(&bundles)?;

        let bundle_meta = BundleMeta {
            name: bundle_id.to_string(),
            timestamp: Utc::now(),
            debug_ids,
        };
        let file = fs::File::create(bundles.join(bundle_id))?;
        serde_json::to_writer(file, &bundle_meta)?;
""")]),
('y-exec', 'symsorter/src/app.rs', 'Y03,Y04,Y05,Y06', [("""        cfg.output = if let Some(ref prefix) = cli.prefix {
            cli.output.join(prefix)
        } else {
            cli.output.clone()
        };
""", """        cfg.output = match &cli.prefix {
            Some(prefix) => cli.output.join(prefix),
            None => cli.output.clone(),
        };
"""), ("""    if cli.multiple_bundles {
        for path in cli.input.into_iter() {
            let bundle_id = make_bundle_id(&path.file_name().unwrap().to_string_lossy());
            log!("[bundle: {}]", style(&bundle_id).dim());
            sort_config.bundle_id = Some(bundle_id);
            let (debug_files_sorted, source_bundles_created) =
                sort_files(&sort_config, vec![path])?;
            debug_files += debug_files_sorted;
            source_bundles += source_bundles_created;
        }
    } else {
        if let Some(bundle_id) = cli.bundle_id {
            anyhow::ensure!(is_bundle_id(&bundle_id), "Invalid bundle id");
            sort_config.bundle_id = Some(bundle_id);
        }
        let (debug_files_sorted, source_bundles_created) = sort_files(&sort_config, cli.input)?;
        debug_files += debug_files_sorted;
        source_bundles += source_bundles_created;
    }
""", """    if cli.multiple_bundles {
        for path in cli.input {
            let name = path.file_name().unwrap().to_string_lossy();
            let bundle_id = make_bundle_id(&name);
            log!("[bundle: {}]", style(&bundle_id).dim());
            let sort_config = SortConfig {
                bundle_id: Some(bundle_id),
                ..sort_config
            };
            let sorted = sort_files(&sort_config, vec![path])?;
            debug_files += sorted.0;
            source_bundles += sorted.1;
        }
    } else {
        match cli.bundle_id {
            Some(bundle_id) if !is_bundle_id(&bundle_id) => anyhow::bail!("Invalid bundle id"),
            bundle_id => sort_config.bundle_id = bundle_id,
        }
        (debug_files, source_bundles) = sort_files(&sort_config, cli.input)?;
    }
""")]),
('y-exec2', 'symsorter/src/app.rs', 'Y03,Y04,Y05,Y06', [("""        if let Some(bundle_id) = cli.bundle_id {
            anyhow::ensure!(is_bundle_id(&bundle_id), "Invalid bundle id");
            sort_config.bundle_id = Some(bundle_id);
        }
""", """        if let Some(bundle_id) = &cli.bundle_id {
            if !is_bundle_id(bundle_id) {
                return Err(anyhow!("Invalid bundle id"));
            }
        }
        sort_config.bundle_id = cli.bundle_id;
"""), ("""    RunConfig::configure(|cfg| {
        cfg.ignore_errors = cli.ignore_errors;
        cfg.quiet = cli.quiet;
""", """    RunConfig::configure(|cfg| {
        cfg.quiet = cli.quiet;
        cfg.ignore_errors = cli.ignore_errors;
""")]),
('y-main', 'symsorter/src/app.rs', 'Y03,Y04,Y05', [("""    match execute(cli) {
        Ok(()) => std::process::exit(0),
        Err(error) => {
            eprintln!("{}: {}", style("error").red().bold(), error);
            for cause in error.chain().skip(1) {
                eprintln!("{}", style(format!("  caused by {cause}")).dim());
            }

            if !ignore_errors {
                eprintln!();
                eprintln!("To skip this error, use --ignore-errors.");
            }
            std::process::exit(1);
        }
    }
""", """    let exit_code = if let Err(error) = execute(cli) {
        eprintln!("{}: {}", style("error").red().bold(), error);
        error
            .chain()
            .skip(1)
            .for_each(|cause| eprintln!("{}", style(format!("  caused by {cause}")).dim()));

        if !ignore_errors {
            eprintln!();
            eprintln!("To skip this error, use --ignore-errors.");
        }
        1
    } else {
        0
    };
    std::process::exit(exit_code)
""")]),
('y-config', 'symsorter/src/config.rs', 'Y03,Y04,Y05,Y02', [("""        let mut config = RunConfig::default();
        let rv = f(&mut config);
        CONFIG.set(config).unwrap();
        rv
""", """        let mut config = Self::default();
        let result = f(&mut config);
        if CONFIG.set(config).is_err() {
            panic!("already configured");
        }
        result
""")]),
('w-custom', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""    section.try_as()?.try_contents().ok()
""", """    let blob = section.try_as::<CustomSection>()?;
    match blob.try_contents() {
        Ok(contents) => Some(contents),
        Err(_) => None,
    }
"""), ("""    as_custom_section(section).is_some_and(|section| match section {
        CustomSection::Name(_) => strip_names,
        other => other.name().starts_with(".debug_"),
    })
""", """    match as_custom_section(section) {
        None => false,
        Some(CustomSection::Name(_)) => strip_names,
        Some(other) => other.name().starts_with(".debug_"),
    }
""")]),
('w-buildid', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""    let build_id = module
        .sections
        .iter()
        .filter_map(as_custom_section)
        .find_map(|section| match section {
            CustomSection::BuildId(build_id) => Some(build_id.clone()),
            _ => None,
        })
        // if we do have to build a new one, use the one from the command line or fall back to
        // a random uuid v4 as build id.
        .unwrap_or_else(|| {
            let new_id = cli
                .build_id
                .unwrap_or_else(Uuid::new_v4)
                .as_bytes()
                .to_vec();
            should_write_main_module = true;
            module
                .sections
                .push(CustomSection::BuildId(new_id.clone()).into());
            new_id
        });
""", """    let build_id = match find_build_id(&module) {
        Some(build_id) => build_id,
        None => {
            let uuid = match cli.build_id {
                Some(uuid) => uuid,
                None => Uuid::new_v4(),
            };
            let new_id = uuid.as_bytes().to_vec();
            let section = CustomSection::BuildId(new_id.clone());
            module.sections.push(Section::from(section));
            should_write_main_module = true;
            new_id
        }
    };
"""), ("""fn main() -> anyhow""", """fn find_build_id(module: &Module) -> Option<Vec<u8>> {
    for section in &module.sections {
        if let Some(CustomSection::BuildId(build_id)) = as_custom_section(section) {
            return Some(build_id.clone());
        }
    }
    None
}

fn main() -> anyhow""")]),
('w-write', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""        let mut writer = BufWriter::new(File::create(debug_output)?);
        module.encode_into(&mut writer)?;
        writer.flush()?;
""", """        write_module(&module, debug_output)?;
"""), ("""        let output = cli.out.as_ref().unwrap_or(&cli.input);
        let mut writer = BufWriter::new(File::create(output)?);
        module.encode_into(&mut writer)?;
        writer.flush()?;
""", """        write_module(&module, cli.out.as_deref().unwrap_or(&cli.input))?;
"""), ("""fn main() -> anyhow""", """fn write_module(module: &Module, path: &std::path::Path) -> anyhow::Result<()> {
    let file = File::create(path)?;
    let mut writer = BufWriter::new(file);
    module.encode_into(&mut writer)?;
    writer.flush()?;
    Ok(())
}

fn main() -> anyhow""")]),
('w-strip', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""        let strip_names = cli.strip_names;
        module
            .sections
            .retain(|section| !is_strippable_section(section, strip_names));
        should_write_main_module = true;
""", """        should_write_main_module = true;
        module.sections = module
            .sections
            .into_iter()
            .filter(|section| !is_strippable_section(section, cli.strip_names))
            .collect();
"""), ("""    if should_write_main_module || cli.out.is_some() {
        let output""", """    should_write_main_module |= cli.out.is_some();
    if should_write_main_module {
        let output""")]),
('w-url', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""    let debug_file_name = cli
        .debug_out
        .as_ref()
        .and_then(|name| name.file_name())
        .and_then(|name| name.to_str())
        .map(|name| name.to_string());
""", """    let debug_file_name = || -> Option<String> {
        let name = cli.debug_out.as_ref()?.file_name()?;
        Some(name.to_str()?.to_owned())
    };
"""), ("""    let resolved_external_dwarf_url = cli.external_dwarf_url.or(debug_file_name);

    if let Some(external_dwarf_url) = resolved_external_dwarf_url {
        should_write_main_module = true;

        module
            .sections
            .push(CustomSection::ExternalDebugInfo(external_dwarf_url.into()).into());
    }
""", """    let resolved_external_dwarf_url = match cli.external_dwarf_url.clone() {
        Some(url) => Some(url),
        None => debug_file_name(),
    };

    if let Some(url) = resolved_external_dwarf_url {
        let section = CustomSection::ExternalDebugInfo(url.into());
        module.sections.push(section.into());
        should_write_main_module = true;
    }
"""), ("""    if !cli.quiet {
        println!("{}", hex::encode(build_id));
    }

    Ok(())
""", """    if cli.quiet {
        return Ok(());
    }
    let hex = hex::encode(&build_id);
    println!("{hex}");
    Ok(())
""")]),
('w-run', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""fn main() -> anyhow::Result<()> {
    let cli = Cli::parse();

""", """fn main() -> anyhow::Result<()> {
    run(Cli::parse())
}

fn run(cli: Cli) -> anyhow::Result<()> {
"""), ("""    if let Some(debug_output) = cli.debug_out.as_ref() {
""", """    if let Some(debug_output) = &cli.debug_out {
"""), ("""    let mut module = Module::decode_from(BufReader::new(File::open(&cli.input)?))?;
""", """    let input = File::open(&cli.input)?;
    let mut reader = BufReader::new(input);
    let mut module = Module::decode_from(&mut reader)?;
""")]),
('w-stages', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""        .filter_map(as_custom_section)
        .find_map(|section| match section {
            CustomSection::BuildId(build_id) => Some(build_id.clone()),
            _ => None,
        })
""", """        .find_map(|section| match as_custom_section(section)? {
            CustomSection::BuildId(build_id) => Some(build_id.to_vec()),
            _ => None,
        })
"""), ("""    as_custom_section(section).is_some_and(|section| match section {
        CustomSection::Name(_) => strip_names,
        other => other.name().starts_with(".debug_"),
    })
""", """    let Some(section) = as_custom_section(section) else {
        return false;
    };
    if let CustomSection::Name(_) = section {
        strip_names
    } else {
        section.name().starts_with(".debug_")
    }
""")]),
]]
