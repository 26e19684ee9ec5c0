[dict(id=i, file=f, props=p, edits=e) for i, f, p, e in [
('native-scan-helper', 'symbolicator-native/src/symbolication/symbolicate.rs', 'N01,N02,N03,N04,N05', [("""                if frame.trust == FrameTrust::Scan
                    && (status == FrameStatus::MissingSymbol || status == FrameStatus::UnknownImage)
                {
                    continue;
                }
""", """                if is_false_positive(&frame, status) {
                    continue;
                }
"""), ("""fn symbolicate_frame(
    demangle""", """fn is_false_positive(frame: &RawFrame, status: FrameStatus) -> bool {
    if frame.trust != FrameTrust::Scan {
        return false;
    }
    matches!(
        status,
        FrameStatus::MissingSymbol | FrameStatus::UnknownImage
    )
}

fn symbolicate_frame(
    demangle"""), ("""                let is_start =
                    |frame: &SymbolicatedFrame| frame.raw.function.as_deref() == Some("_start");
                if status == FrameStatus::UnknownImage
                    && unsymbolicated_frames_iter.peek().is_none()
                    && symbolicated_frames.last().is_some_and(is_start)
                {
                    continue;
                }
""", """                let after_start = match symbolicated_frames.last() {
                    Some(last) => last.raw.function.as_deref() == Some("_start"),
                    None => false,
                };
                let is_last = unsymbolicated_frames_iter.peek().is_none();
                if after_start && is_last && status == FrameStatus::UnknownImage {
                    continue;
                }
""")]),
('native-lookup-match', 'symbolicator-native/src/symbolication/symbolicate.rs', 'N01,N02,N03,N04,N05', [("""        Err(CacheError::Malformed(_)) => Err(FrameStatus::Malformed),
        _ => Err(FrameStatus::Missing),
    }
""", """        Err(error) => {
            let status = match error {
                CacheError::Malformed(_) => FrameStatus::Malformed,
                _ => FrameStatus::Missing,
            };
            Err(status)
        }
    }
"""), ("""    frame
        .package
        .clone_from(&lookup_result.object_info.raw.code_file);
""", """    frame.package = lookup_result.object_info.raw.code_file.clone();
"""), ("""        let adjustment = AdjustInstructionAddr::for_frame(&frame, default_adjustment);
        match symbolicate_frame(
            demangle_cache,
            caches,
            &thread.registers,
            signal,
            &mut frame,
            index,
            adjustment,
        ) {
""", """        let adjustment = AdjustInstructionAddr::for_frame(&frame, default_adjustment);
        let outcome = symbolicate_frame(
            demangle_cache,
            caches,
            &thread.registers,
            signal,
            &mut frame,
            index,
            adjustment,
        );
        match outcome {
""")]),
('native-frame-loop', 'symbolicator-native/src/symbolication/native.rs', 'N01,N02,N03,N04,N05', [("""    if let Some(last_frame) = rv.last_mut() {
        last_frame.raw.sym_addr = sym_addr;
    }

    if rv.is_empty() {
        return Err(FrameStatus::MissingSymbol);
    }

    Ok(rv)
""", """    match rv.last_mut() {
        None => Err(FrameStatus::MissingSymbol),
        Some(outermost) => {
            outermost.raw.sym_addr = sym_addr;
            Ok(rv)
        }
    }
"""), ("""        let filename = if !filename.is_empty() {
            Some(filename.to_string())
        } else {
            frame.filename.clone()
        };
""", """        let filename = (!filename.is_empty())
            .then(|| filename.to_string())
            .or_else(|| frame.filename.clone());
""")]),
('js-line', 'symbolicator-js/src/symbolication.rs', 'J01,J02,J03,J04', [("""    let line = if raw_frame.lineno > 0 {
        raw_frame.lineno
    } else {
        return Err(JsModuleErrorKind::InvalidLocation {
            line: raw_frame.lineno,
            col: raw_frame.colno,
        });
    };

    let col = raw_frame.colno.unwrap_or_default();
""", """    let line = raw_frame.lineno;
    if line == 0 {
        return Err(JsModuleErrorKind::InvalidLocation {
            line,
            col: raw_frame.colno,
        });
    }

    let col = raw_frame.colno.unwrap_or(0);
"""), ("""    let sp = SourcePosition::new(line - 1, col.saturating_sub(1));
    let token = smcache
        .get()
        .lookup(sp)
        .ok_or(JsModuleErrorKind::InvalidLocation {
            line,
            col: Some(col),
        })?;
""", """    let position = SourcePosition::new(line - 1, col.saturating_sub(1));
    let Some(token) = smcache.get().lookup(position) else {
        return Err(JsModuleErrorKind::InvalidLocation {
            line,
            col: Some(col),
        });
    };
""")]),
('js-callsite', 'symbolicator-js/src/symbolication.rs', 'J01,J02,J03,J04', [("""                match symbolicate_js_frame(
                    &mut lookup,
                    raw_frame,
                    &mut errors,
                    std::mem::take(&mut callsite_fn_name),
                    apply_source_context,
                    &mut stats,
                )
                .await
                {
                    Ok(mut frame) => {""", """                let result = symbolicate_js_frame(
                    &mut lookup,
                    raw_frame,
                    &mut errors,
                    callsite_fn_name.take(),
                    apply_source_context,
                    &mut stats,
                )
                .await;
                match result {
                    Ok(mut frame) => {"""), ("""                        std::mem::swap(&mut callsite_fn_name, &mut frame.token_name);
""", """                        callsite_fn_name = frame.token_name.take();
"""), ("""                        errors.insert(JsModuleError {
                            abs_path: raw_frame.abs_path.clone(),
                            kind: err,
                        });
                        symbolicated_frames.push(raw_frame.clone());
""", """                        symbolicated_frames.push(raw_frame.clone());
                        let abs_path = raw_frame.abs_path.clone();
                        errors.insert(JsModuleError {
                            abs_path,
                            kind: err,
                        });
""")]),
('js-smcache', 'symbolicator-js/src/symbolication.rs', 'J01,J02,J03,J04', [("""    let (smcache, resolved_with, sourcemap_origin) = match &module.smcache {
        Some(smcache) => match &smcache.entry {
            Ok(entry) => (entry, smcache.resolved_with, smcache.uri.clone()),
""", """    let Some(cached) = &module.smcache else {
        // In case it's just a source file, with no sourcemap reference or any debug id, we bail.
        return Ok(raw_frame.clone());
    };
    let (smcache, resolved_with, sourcemap_origin) = match cached {
        smcache => match &smcache.entry {
            Ok(entry) => (entry, smcache.resolved_with, smcache.uri.clone()),
"""), ("""        },
        // In case it's just a source file, with no sourcemap reference or any debug id, we bail.
        None => return Ok(raw_frame.clone()),
    };
""", """        },
    };
""")]),
('dl-blocked', 'symbolicator-service/src/download/mod.rs', 'D01,D02,X04,X03', [("""        if source_can_be_blocked
            && self
                .host_deny_list
                .as_ref()
                .is_some_and(|deny_list| deny_list.is_blocked(&host))
        {
""", """        let blocked = match &self.host_deny_list {
            Some(deny_list) if source_can_be_blocked => deny_list.is_blocked(&host),
            _ => false,
        };
        if blocked {
"""), ("""        let result = match job.await {
            // Timeout
            Err(_) => Err(CacheError::Timeout(timeout)),
            // Spawn error
            Ok(Err(_)) => Err(CacheError::InternalError),
            Ok(Ok(res)) => res,
        };
""", """        let result = match job.await {
            Ok(joined) => joined.unwrap_or(Err(CacheError::InternalError)),
            // Timeout
            Err(_) => Err(CacheError::Timeout(timeout)),
        };
"""), ("""            if let Some(ref deny_list) = self.host_deny_list {
                if source_can_be_blocked {
                    deny_list.register_failure(&source_metric_key, host);
                }
            }
""", """            match &self.host_deny_list {
                Some(deny_list) if source_can_be_blocked => {
                    deny_list.register_failure(&source_metric_key, host)
                }
                _ => {}
            }
""")]),
('dl-retry', 'symbolicator-service/src/download/mod.rs', 'D01,D03', [("""    let mut tries = 0;
    loop {
        tries += 1;
        let result = task_gen().await;

        // its highly unlikely we get a different result when retrying these
        let should_not_retry = matches!(
            result,
            Ok(_) | Err(CacheError::NotFound | CacheError::PermissionDenied(_))
        );

        if should_not_retry || tries >= 3 {
            break result;
        }

        tokio::time::sleep(Duration::from_millis(20)).await;""", """    let mut remaining = 3;
    loop {
        remaining -= 1;
        let result = task_gen().await;

        // its highly unlikely we get a different result when retrying these
        match &result {
            Ok(_) | Err(CacheError::NotFound) | Err(CacheError::PermissionDenied(_)) => {
                return result
            }
            Err(_) if remaining == 0 => return result,
            Err(_) => {}
        }

        tokio::time::sleep(Duration::from_millis(20)).await;""")]),
('dl-list', 'symbolicator-service/src/download/mod.rs', 'D06,D07,C06,S01', [("""            let mut iter =
                SourceLocationIter::new(&$source.files, filetypes, $index, object_id).peekable();
            if iter.peek().is_none() {
                // TODO: create a special "no file on source" `RemoteFile`?
            } else {
                remote_files.extend(iter.map(|loc| <$file_ty>::new($source.clone(), loc).into()))
            }
""", """            for loc in SourceLocationIter::new(&$source.files, filetypes, $index, object_id) {
                remote_files.push(<$file_ty>::new($source.clone(), loc).into());
            }
"""), ("""                let mut iter =
                    SourceLocationIter::new(&cfg.files, filetypes, index.as_ref(), object_id)
                        .peekable();
                if iter.peek().is_none() {
                    // TODO: create a special "no file on source" `RemoteFile`?
                } else {
                    remote_files.extend(iter.map(|loc| {
                        let mut file = HttpRemoteFile::new(cfg.clone(), loc);
""", """                let iter =
                    SourceLocationIter::new(&cfg.files, filetypes, index.as_ref(), object_id);
                {
                    remote_files.extend(iter.map(|loc| {
                        let mut file = HttpRemoteFile::new(cfg.clone(), loc);
""")]),
('cli-module', 'symbolicli/src/output.rs', 'A04', [("""        let instruction_addr = frame.raw.instruction_addr.0;

""", """        let HexValue(instruction_addr) = frame.raw.instruction_addr;

"""), ("""use symbolic::common::split_path;
""", """use symbolic::common::split_path;
use symbolicator_service::utils::hex::HexValue;
"""), ("""        let is_inline = Some(frame.raw.instruction_addr)
            == self
                .inner
                .peek()
                .map(|next_frame| next_frame.raw.instruction_addr);
""", """        let is_inline = match self.inner.peek() {
            Some(next_frame) => next_frame.raw.instruction_addr == frame.raw.instruction_addr,
            None => false,
        };
""")]),
('cli-main', 'symbolicli/src/main.rs', 'A04', [("""        let stacktraces: Vec<_> = stacktraces
            .into_iter()
            .map(RawStacktrace::from)
            .filter(|stacktrace| !stacktrace.frames.is_empty())
            .collect();
""", """        let mut raw_stacktraces = Vec::with_capacity(stacktraces.len());
        for stacktrace in stacktraces {
            let stacktrace = RawStacktrace::from(stacktrace);
            if !stacktrace.frames.is_empty() {
                raw_stacktraces.push(stacktrace);
            }
        }
        let stacktraces = raw_stacktraces;
"""), ("""                if &magic == b"MDMP" || &magic == b"PMDM" {
                    let mut temp_file""", """                let is_minidump = matches!(&magic, b"MDMP" | b"PMDM");
                if is_minidump {
                    let mut temp_file"""), ("""        let Some(minidump_id) = attachments
            .iter()
            .find(|attachment| attachment.r#type == "event.minidump")
            .map(|attachment| &attachment.id)
        else {
            return Ok(None);
        };
""", """        let minidump = attachments
            .into_iter()
            .find(|attachment| attachment.r#type == "event.minidump");
        let minidump_id = match minidump {
            Some(Attachment { id, .. }) => id,
            None => return Ok(None),
        };
""")]),
]]
