[dict(id=i, file=f, props=p, edits=e) for i, f, p, e in [
('m-w-writer', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""        let mut writer = BufWriter::new(File::create(debug_output)?);
        module.encode_into(&mut writer)?;
        writer.flush()?;
    }

    // do we""", """        write_module(&module, debug_output)?;
    }

    // do we"""), ("""        let output = cli.out.as_ref().unwrap_or(&cli.input);
        let mut writer = BufWriter::new(File::create(output)?);
        module.encode_into(&mut writer)?;
        writer.flush()?;
""", """        write_module(&module, cli.out.as_deref().unwrap_or(cli.input.as_path()))?;
"""), ("""fn main() -> anyhow::Result<()> {""", """fn write_module<P: AsRef<std::path::Path>>(module: &Module, path: P) -> anyhow::Result<()> {
    let mut writer = BufWriter::new(File::create(path)?);
    module.encode_into(&mut writer)?;
    writer.flush()?;
    Ok(())
}

fn main() -> anyhow::Result<()> {""")]),
('m-w-loop', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""        .filter_map(as_custom_section)
        .find_map(|section| match section {
            CustomSection::BuildId(build_id) => Some(build_id.clone()),
            _ => None,
        })
""", """        .filter_map(as_custom_section)
        .filter_map(|section| {
            if let CustomSection::BuildId(build_id) = section {
                Some(build_id.clone())
            } else {
                None
            }
        })
        .next()
""")]),
('m-w-name', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""    let debug_file_name = cli
        .debug_out
        .as_ref()
        .and_then(|name| name.file_name())
        .and_then(|name| name.to_str())
        .map(|name| name.to_string());
""", """    let mut debug_file_name = None;
    if let Some(path) = &cli.debug_out {
        if let Some(name) = path.file_name() {
            debug_file_name = name.to_str().map(str::to_owned);
        }
    }
""")]),
('m-w-strippable', 'wasm-split/src/main.rs', 'W01,W02,W03,W04,W05', [("""    as_custom_section(section).is_some_and(|section| match section {
        CustomSection::Name(_) => strip_names,
        other => other.name().starts_with(".debug_"),
    })
""", """    let Some(section) = as_custom_section(section) else {
        return false;
    };
    if let CustomSection::Name(_) = section {
        return strip_names;
    }
    section.name().starts_with(".debug_")
""")]),
('m-y-levels', 'symsorter/src/app.rs', 'Y01,Y02,Y03,Y04,Y05,Y06,Y07', [("""    let compression_level = match sort_config.compression_level {
        0 => 0,
        1 => 3,
        2 => 10,
        3 => 19,
        _ => 22,
    };
""", """    const LEVELS: [i32; 4] = [0, 3, 10, 19];
    let compression_level = LEVELS
        .get(sort_config.compression_level as usize)
        .copied()
        .unwrap_or(22);
""")]),
('m-y-write', 'symsorter/src/app.rs', 'Y01,Y02,Y03,Y04,Y05,Y06,Y07', [("""        if compression_level > 0 {
            copy_encode(obj.data(), &mut out, compression_level)?;
        } else {
            io::copy(&mut obj.data(), &mut out)?;
        }
        let unified_id""", """        match compression_level {
            0 => {
                let mut data = obj.data();
                io::copy(&mut data, &mut out)?;
            }
            level => copy_encode(obj.data(), &mut out, level)?,
        }
        let unified_id""")]),
('m-y-refs', 'symsorter/src/app.rs', 'Y01,Y02,Y03,Y04,Y05,Y06,Y07', [("""        if let Some(bundle_id) = &sort_config.bundle_id {
            let refs_path = new_filename.parent().unwrap().join("refs");
            fs::create_dir_all(&refs_path)?;
            fs::write(refs_path.join(bundle_id), b"")?;
        }
""", """        add_reference(sort_config, &new_filename)?;
"""), ("""fn process_file(
    sort_config""", """fn add_reference(sort_config: &SortConfig, filename: &std::path::Path) -> Result<()> {
    let bundle_id = match sort_config.bundle_id {
        Some(ref bundle_id) => bundle_id,
        None => return Ok(()),
    };
    let mut refs_path = filename.parent().unwrap().to_path_buf();
    refs_path.push("refs");
    fs::create_dir_all(&refs_path)?;
    refs_path.push(bundle_id);
    fs::write(refs_path, b"")?;
    Ok(())
}

fn process_file(
    sort_config""")]),
('m-y-zip', 'symsorter/src/app.rs', 'Y01,Y02,Y03,Y04,Y05,Y06,Y07', [("""            if Archive::peek(&bv) != FileFormat::Unknown {
                debug_ids.lock().unwrap().extend(
                    process_file(sort_config, bv, name)?
                        .into_iter()
                        .map(|x| x.0),
                );
            }
""", """            if Archive::peek(&bv) == FileFormat::Unknown {
                continue;
            }
            let processed = process_file(sort_config, bv, name)?;
            let mut debug_ids = debug_ids.lock().unwrap();
            for (id, _) in processed {
                debug_ids.push(id);
            }
""")]),
('m-y-candidates', 'symsorter/src/app.rs', 'Y01,Y02,Y03,Y04,Y05,Y06,Y07', [("""                        if object_kind == ObjectKind::Sources {
                            source_candidates.insert(unified_id.clone(), None);
                        } else if object_kind == ObjectKind::Debug
                            && !source_candidates.contains_key(&unified_id)
                        {
                            source_candidates.insert(unified_id.clone(), Some(path.to_path_buf()));
                        }
""", """                        match object_kind {
                            ObjectKind::Sources => {
                                source_candidates.insert(unified_id.clone(), None);
                            }
                            ObjectKind::Debug => {
                                source_candidates
                                    .entry(unified_id.clone())
                                    .or_insert_with(|| Some(path.to_path_buf()));
                            }
                            _ => {}
                        }
""")]),
('m-y-bundles', 'symsorter/src/app.rs', 'Y01,Y02,Y03,Y04,Y05,Y06,Y07', [("""            .reduce(|| Ok(0), |sum, res| Ok(sum? + res?))?
""", """            .collect::<Result<Vec<usize>>>()?
            .into_iter()
            .sum();
""")]),
('m-y-walk', 'symsorter/src/app.rs', 'Y01,Y02,Y03,Y04,Y05,Y06,Y07', [("""        .filter_map(Result::ok)
        .filter(|entry| entry.metadata().is_ok_and(|x| x.is_file()))
""", """        .filter_map(|entry| entry.ok())
        .filter(|entry| match entry.metadata() {
            Ok(metadata) => metadata.is_file(),
            Err(_) => false,
        })
""")]),
]]
