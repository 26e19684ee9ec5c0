[dict(id=i, file='symbolicator-service/src/'+f, props=p, edits=e) for i, f, p, e in [
('cleanup-first-error', 'caching/cleanup.rs', 'C09', [("""        let mut first_error = None;
        for result in results {
            if let Err(err) = result {
                let stderr: &dyn std::error::Error = &*err;
                tracing::error!(stderr, "Failed to cleanup cache");
                if first_error.is_none() {
                    first_error = Some(err);
                }
            }
        }
        match first_error {
            Some(err) => Err(err),
            None => Ok(()),
        }
""", """        let mut outcome = Ok(());
        for err in results.into_iter().filter_map(|result| result.err()) {
            let stderr: &dyn std::error::Error = &*err;
            tracing::error!(stderr, "Failed to cleanup cache");
            if outcome.is_ok() {
                outcome = Err(err);
            }
        }
        outcome
"""), ("""        Ok((is_empty, stats))
    }

    /// Tries to clean""", """        let outcome = (is_empty, stats);
        Ok(outcome)
    }

    /// Tries to clean""")]),
('cleanup-remove-helper', 'caching/cleanup.rs', 'C09', [("""            if !dry_run {
                catch_not_found(|| remove_file(path))?;
                catch_not_found(|| remove_file(&metadata_path))?;
            }
""", """            if !dry_run {
                for p in [path, metadata_path.as_path()] {
                    catch_not_found(|| remove_file(p))?;
                }
            }
"""), ("""        if catch_not_found(|| self.check_expiry(path, !dry_run))?.is_none() {
            tracing::debug!("Removing file `{}`", path.display());""", """        let live = catch_not_found(|| self.check_expiry(path, !dry_run))?.is_some();
        if !live {
            tracing::debug!("Removing file `{}`", path.display());""")]),
('cleanup-dir-helper', 'caching/cleanup.rs', 'C09', [("""                        if dir_is_empty {
                            stats.removed_dirs += 1;
                        } else {
                            stats.retained_dirs += 1;
                        }
                        is_empty &= dir_is_empty;
""", """                        match dir_is_empty {
                            true => stats.removed_dirs += 1,
                            false => stats.retained_dirs += 1,
                        }
                        is_empty = is_empty && dir_is_empty;
"""), ("""                    if path.extension().and_then(OsStr::to_str) == Some(METADATA_EXTENSION) {
                        return Ok((is_empty, stats));
                    }
                    if path.is_dir() {""", """                    let extension = path.extension().and_then(|ext| ext.to_str());
                    if matches!(extension, Some(METADATA_EXTENSION)) {
                        return Ok((is_empty, stats));
                    }
                    if path.is_dir() {""")]),
('memory-versions-loop', 'caching/memory.rs', 'C01,C02,C03,C04,C11', [("""        let versions =
            std::iter::once(T::VERSIONS.current).chain(T::VERSIONS.fallbacks.iter().copied());

        for version in versions {
            let is_current_version = version == T::VERSIONS.current;
""", """        let current = T::VERSIONS.current;
        let mut versions = vec![current];
        versions.extend_from_slice(T::VERSIONS.fallbacks);

        for version in versions {
            let is_current_version = version == current;
"""), ("""                match lookup_local_cache(&self.config, cache_dir, &cache_key.cache_path(version)) {
""", """                match self.local_file(cache_dir, cache_key, version) {
"""), ("""    /// Computes an item by loading from or populating the cache.
""", """    fn local_file(
        &self,
        dir: &std::path::Path,
        key: &CacheKey,
        version: u32,
    ) -> CacheContents<(InMemoryItem<ByteView<'static>>, bool)> {
        let path = key.cache_path(version);
        lookup_local_cache(&self.config, dir, &path)
    }

    /// Computes an item by loading from or populating the cache.
""")]),
('memory-remove-old', 'caching/memory.rs', 'C01,C02,C03,C04,C11', [("""                if let Err(e) = fs::remove_file(cache_dir.join(&item_path)) {
                    // `NotFound` errors are no cause for concern—it's likely that not all fallback versions exist anymore.
                    if e.kind() != std::io::ErrorKind::NotFound {
                        tracing::error!(
                            error = &e as &dyn std::error::Error,
                            path = item_path,
                            "Failed to remove old cache file"
                        );
                    }
                }
""", """                match fs::remove_file(cache_dir.join(&item_path)) {
                    Ok(()) => {}
                    // `NotFound` errors are no cause for concern—it's likely that not all fallback versions exist anymore.
                    Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
                    Err(e) => tracing::error!(
                        error = &e as &dyn std::error::Error,
                        path = item_path,
                        "Failed to remove old cache file"
                    ),
                }
""")]),
('memory-early-return', 'caching/memory.rs', 'C01,C02,C03,C04,C11,C14', [("""        if let Some(value) = self.lookup_local_cache(request.clone(), cache_key) {
            return value;
        }
""", """        let local = self.lookup_local_cache(request.clone(), cache_key);
        match local {
            Some(value) => return value,
            None => {}
        }
"""), ("""        // we just created a fresh cache, so use the initial expiration times
        let expiration = ExpirationTime::for_fresh_status(&self.config, &data);

        InMemoryItem {
            deadline: expiration.as_instant(),""", """        // we just created a fresh cache, so use the initial expiration times
        let deadline = ExpirationTime::for_fresh_status(&self.config, &data).as_instant();

        InMemoryItem {
            deadline,""")]),
('memory-compute-question', 'caching/memory.rs', 'C01,C02,C03,C04,C08,C11', [("""                    Err(CacheError::InternalError) => {
                        // If there was an `InternalError` during computation (for instance because
                        // of an io error), we return immediately without writing the error
                        // or persisting the temp file.
                        return CacheEntry::from_err(CacheError::InternalError);
                    }
                    Err(err) => {
""", """                    Err(err) => {
                        // If there was an `InternalError` during computation (for instance because
                        // of an io error), we return immediately without writing the error
                        // or persisting the temp file.
                        if matches!(err, CacheError::InternalError) {
                            return CacheEntry::from_err(err);
                        }
""")]),
('metrics-tags-helper', 'metrics.rs', 'R06', [("""                if let Some(tags) = tags {
                    if formatted_global_tags.is_empty() {
                        formatted_metric.push_str("|#");
                    } else {
                        formatted_metric.push(',');
                    }
                    formatted_metric.push_str(&tags);
                }
""", """                if let Some(tags) = tags {
                    push_tags(&mut formatted_metric, &formatted_global_tags, &tags);
                }
"""), ("""fn aggregate_all(
""", """fn push_tags(buf: &mut String, global: &str, tags: &str) {
    let separator = if global.is_empty() { "|#" } else { "," };
    buf.push_str(separator);
    buf.push_str(tags);
}

fn aggregate_all(
"""), ("""                let ty = key.ty;
                let aggregated_value = total_counters.entry(key).or_default();
                if ty == "|c" {
                    *aggregated_value += value;
                } else if ty == "|g" {""", """                let is_counter = key.ty == "|c";
                let is_gauge = key.ty == "|g";
                let aggregated_value = total_counters.entry(key).or_insert(0);
                if is_counter {
                    *aggregated_value += value;
                } else if is_gauge {""")]),
('metrics-prefix', 'metrics.rs', 'R06', [("""    let prefix = if prefix.is_empty() {
        String::new()
    } else {
        format!("{}.", prefix.trim_end_matches('.'))
    };
""", """    let prefix = match prefix {
        "" => String::new(),
        prefix => {
            let mut owned = prefix.trim_end_matches('.').to_owned();
            owned.push('.');
            owned
        }
    };
"""), ("""                formatted_metric.push_str(&prefix);
                formatted_metric.push_str(name);

                let _ = write!(&mut formatted_metric, ":{value}{ty}{formatted_global_tags}");
""", """                let _ = write!(
                    formatted_metric,
                    "{prefix}{name}:{value}{ty}{formatted_global_tags}"
                );
""")]),
]]
