[dict(id=i, file='symbolicator-sources/src/'+f, props=p, edits=e) for i, f, p, e in [
('index-matchif', 'index.rs', 'S06,Y05', [("""            match Self::parse_line(&line) {
                Some(parsed) => {
                    out.files.insert(parsed);
                }
                None => tracing::error!(line, "Invalid line in Symstore index file"),
            }
""", """            if let Some(parsed) = Self::parse_line(&line) {
                out.files.insert(parsed);
            } else {
                tracing::error!(line, "Invalid line in Symstore index file");
            }
"""), ("""        for line in reader.lines() {
            out.files.insert(line?.into());
        }
        Ok(out)
""", """        for line in reader.lines() {
            let line = line?;
            out.files.insert(Arc::from(line));
        }
        Ok(out)
""")]),
('index-iter', 'index.rs', 'S06', [("""        let mut out = Self::default();
        let reader = BufReader::new(data);
        for line in reader.lines() {
            out.files.insert(line?.into());
        }
        Ok(out)
""", """        let files = BufReader::new(data)
            .lines()
            .map(|line| line.map(Arc::from))
            .collect::<io::Result<BTreeSet<_>>>()?;
        Ok(Self { files })
"""), ("""        for line in &self.files {
            writeln!(destination, "{line}")?;
        }

        Ok(())
""", """        self.files
            .iter()
            .try_for_each(|line| writeln!(destination, "{line}"))
""")]),
('index-parse', 'index.rs', 'S06', [("""        let entry = line.split('"').nth(1)?;
        let (name, id) = entry.split_once('\\\\')?;
        Some(format!("{name}/{id}/{name}").into())
""", """        let mut fields = line.split('"').skip(1);
        let entry = fields.next()?;
        let pos = entry.find('\\\\')?;
        let name = &entry[..pos];
        let id = &entry[pos + 1..];
        Some(Arc::from(format!("{}/{}/{}", name, id, name)))
""")]),
('index-parse2', 'index.rs', 'S06', [("""        let entry = line.split('"').nth(1)?;
        let (name, id) = entry.split_once('\\\\')?;
        Some(format!("{name}/{id}/{name}").into())
""", """        line.split('"')
            .nth(1)
            .and_then(|entry| entry.split_once('\\\\'))
            .map(|(name, id)| [name, id, name].join("/").into())
""")]),
('index-write', 'index.rs', 'S06', [("""            writeln!(destination, "{line}")?;
""", """            destination.write_all(line.as_bytes())?;
            destination.write_all(b"\\n")?;
"""), ("""        self.files.extend(other.files)
""", """        for file in other.files {
            self.files.insert(file);
        }
""")]),
('index-append', 'index.rs', 'S06', [("""    pub fn append(&mut self, other: Self) {
        self.files.extend(other.files)
""", """    pub fn append(&mut self, mut other: Self) {
        self.files.append(&mut other.files)
"""), ("""    pub fn iter(&self) -> impl Iterator<Item = &str> {
        self.files.iter().map(|s| &s[..])
""", """    pub fn iter(&self) -> impl Iterator<Item = &str> {
        self.files.iter().map(|s| s.as_ref())
""")]),
('index-while', 'index.rs', 'S06', [("""        let mut out = Self::default();
        let reader = BufReader::new(data);
        for line in reader.lines() {
            out.files.insert(line?.into());
        }
        Ok(out)
""", """        let mut out = Self::default();
        let mut lines = BufReader::new(data).lines();
        while let Some(line) = lines.next() {
            out.files.insert(line?.into());
        }
        Ok(out)
""")]),
('filters-one', 'sources.rs', 'S03,S02,S04', [("""        if self.requires_checksum && object_id.debug_checksum.is_none() {
            return false;
        }

        // Checks if the filetype is allowed
        if !self.filetypes.is_empty() && !self.filetypes.contains(&filetype) {
            return false;
        }

        // Checks if the path is allowed
        if !paths::matches_path_patterns(object_id, &self.path_patterns) {
            return false;
        }

        true
""", """        let checksum_ok = !self.requires_checksum || object_id.debug_checksum.is_some();
        let type_ok = self.filetypes.is_empty() || self.filetypes.iter().any(|ty| *ty == filetype);

        checksum_ok && type_ok && paths::matches_path_patterns(object_id, &self.path_patterns)
""")]),
('filters-helper', 'sources.rs', 'S03,S02,S04', [("""        // Checks if the filetype is allowed
        if !self.filetypes.is_empty() && !self.filetypes.contains(&filetype) {
            return false;
        }
""", """        if !self.allows_type(filetype) {
            return false;
        }
"""), ("""impl SourceFilters {
""", """impl SourceFilters {
    fn allows_type(&self, filetype: FileType) -> bool {
        match self.filetypes.as_slice() {
            [] => true,
            types => types.contains(&filetype),
        }
    }

""")]),
('filters-order', 'sources.rs', 'S03,S02,S04', [("""        // Checks if the path is allowed
        if !paths::matches_path_patterns(object_id, &self.path_patterns) {
            return false;
        }

        true
""", """        // Checks if the path is allowed
        paths::matches_path_patterns(object_id, &self.path_patterns)
"""), ("""        // Checks if a checksum is required for portable PDB downloads
        if self.requires_checksum && object_id.debug_checksum.is_none() {
            return false;
        }

        // Checks if the filetype is allowed
        if !self.filetypes.is_empty() && !self.filetypes.contains(&filetype) {
            return false;
        }
""", """        if !(self.filetypes.is_empty() || self.filetypes.contains(&filetype)) {
            return false;
        }

        match (self.requires_checksum, &object_id.debug_checksum) {
            (true, None) => return false,
            _ => (),
        }
""")]),
('cfg-default', 'sources.rs', 'S10,S09', [("""        DirectoryLayout {
            ty: DirectoryLayoutType::Native,
            casing: Default::default(),
        }
""", """        let ty = DirectoryLayoutType::Native;
        let casing = FilenameCasing::Default;
        Self { ty, casing }
""")]),
('cfg-layout', 'sources.rs', 'S10,S09', [("""        Self {
            layout: DirectoryLayout {
                ty: layout_type,
                ..DirectoryLayout::default()
            },
            ..Self::default()
        }
""", """        let mut config = Self::default();
        config.layout.ty = layout_type;
        config
""")]),
('ft-asref', 'filetype.rs', 'S11,S13', [("""        match *self {
            FileType::Pe => "pe",
            FileType::Pdb => "pdb",
""", """        match self {
            Self::Pe => "pe",
            Self::Pdb => "pdb",
""")]),
('ft-const', 'filetype.rs', 'S13,S11', [("""            ObjectType::Macho => &[
                FileType::MachCode,
                FileType::Breakpad,
                FileType::MachDebug,
                FileType::Pdb,
                FileType::ElfDebug,
            ],
""", """            ObjectType::Macho => MACHO_TYPES,
"""), ("""            _ => Self::all(),
""", """            ObjectType::Unknown => Self::all(),
"""), ("""impl FileType {
""", """const MACHO_TYPES: &[FileType] = {
    use FileType::*;
    &[MachCode, Breakpad, MachDebug, Pdb, ElfDebug]
};

impl FileType {
""")]),
('ot-display', 'types.rs', 'S11', [("""        match *self {
            ObjectType::Elf => write!(f, "elf"),
            ObjectType::Macho => write!(f, "macho"),
            ObjectType::Pe => write!(f, "pe"),
            ObjectType::PeDotnet => write!(f, "pe_dotnet"),
            ObjectType::Wasm => write!(f, "wasm"),
            ObjectType::Unknown => write!(f, "unknown"),
        }
""", """        let name = match self {
            ObjectType::Elf => "elf",
            ObjectType::Macho => "macho",
            ObjectType::Pe => "pe",
            ObjectType::PeDotnet => "pe_dotnet",
            ObjectType::Wasm => "wasm",
            ObjectType::Unknown => "unknown",
        };
        f.write_str(name)
"""), ("""        Ok(match s {
            "elf" => ObjectType::Elf,
            "macho" => ObjectType::Macho,
            "pe" => ObjectType::Pe,
            "pe_dotnet" => ObjectType::PeDotnet,
            "wasm" => ObjectType::Wasm,
            _ => ObjectType::Unknown,
        })
""", """        let ty = match s {
            "elf" => Self::Elf,
            "macho" => Self::Macho,
            "pe" => Self::Pe,
            "pe_dotnet" => Self::PeDotnet,
            "wasm" => Self::Wasm,
            _ => Self::Unknown,
        };
        Ok(ty)
"""), ("""        let s: Cow<'de, str> = Deserialize::deserialize(deserializer)?;
        Ok(s.parse().unwrap())
""", """        let s = Cow::<'de, str>::deserialize(deserializer)?;
        match s.parse() {
            Ok(ty) => Ok(ty),
            Err(infallible) => match infallible {},
        }
""")]),
('ot-display2', 'types.rs', 'S11', [("""        match *self {
            ObjectType::Elf => write!(f, "elf"),
            ObjectType::Macho => write!(f, "macho"),
            ObjectType::Pe => write!(f, "pe"),
            ObjectType::PeDotnet => write!(f, "pe_dotnet"),
            ObjectType::Wasm => write!(f, "wasm"),
            ObjectType::Unknown => write!(f, "unknown"),
        }
""", """        f.write_str(match *self {
            ObjectType::Elf => "elf",
            ObjectType::Macho => "macho",
            ObjectType::Pe => "pe",
            ObjectType::PeDotnet => "pe_dotnet",
            ObjectType::Wasm => "wasm",
            ObjectType::Unknown => "unknown",
        })
""")]),
('valid-name', 'types.rs', 'S08,S01', [("""    let basename = split_path(file_name).1;
    if matches!(basename, "" | "." | "..") {
        return None;
    }
    if basename.len() < 256 && !basename.contains(|c: char| c.is_control()) {
        return Some(basename);
    }
    None
""", """    let (_, basename) = split_path(file_name);
    match basename {
        "" | "." | ".." => None,
        _ if basename.len() > 255 => None,
        _ if basename.chars().any(char::is_control) => None,
        name => Some(name),
    }
""")]),
('valid-name2', 'types.rs', 'S08,S01', [("""    let basename = split_path(file_name).1;
    if matches!(basename, "" | "." | "..") {
        return None;
    }
    if basename.len() < 256 && !basename.contains(|c: char| c.is_control()) {
        return Some(basename);
    }
    None
""", """    let basename = split_path(file_name).1;
    let reserved = basename.is_empty() || basename == "." || basename == "..";
    let has_control = || basename.chars().any(|c| c.is_control());
    (!reserved && basename.len() <= 255 && !has_control()).then_some(basename)
""")]),
('valid-name3', 'types.rs', 'S08', [("""    let basename = split_path(file_name).1;
    if matches!(basename, "" | "." | "..") {
        return None;
    }
    if basename.len() < 256 && !basename.contains(|c: char| c.is_control()) {
        return Some(basename);
    }
    None
""", """    Some(split_path(file_name).1)
        .filter(|name| !["", ".", ".."].contains(name))
        .filter(|name| name.len() < 256)
        .filter(|name| !name.contains(char::is_control))
""")]),
('code-basename', 'types.rs', 'S08,S01,S04', [("""        valid_file_name(self.code_file.as_ref()?)
""", """        self.code_file.as_deref().and_then(valid_file_name)
"""), ("""        valid_file_name(self.debug_file.as_ref()?)
""", """        let path = self.debug_file.as_deref()?;
        valid_file_name(path)
""")]),
('objid-from', 'types.rs', 'S05,S01', [("""        Self {
            debug_id: Some(source),
            ..Default::default()
        }
""", """        let mut id = Self::default();
        id.debug_id = Some(source);
        id
""")]),
('loc-prefix', 'remotefile.rs', 'S07,S12', [("""        let trimmed = prefix.trim_matches(&['/'][..]);
        if trimmed.is_empty() {
            self.0.clone()
        } else {
            format!("{}/{}", trimmed, self.0)
        }
""", """        match prefix.trim_matches('/') {
            "" => self.0.clone(),
            trimmed => format!("{trimmed}/{}", self.0),
        }
""")]),
('loc-prefix2', 'remotefile.rs', 'S07,S12', [("""        let trimmed = prefix.trim_matches(&['/'][..]);
        if trimmed.is_empty() {
            self.0.clone()
        } else {
            format!("{}/{}", trimmed, self.0)
        }
""", """        let trimmed = prefix.trim_start_matches('/').trim_end_matches('/');
        let mut key = String::with_capacity(trimmed.len() + 1 + self.0.len());
        if !trimmed.is_empty() {
            key.push_str(trimmed);
            key.push('/');
        }
        key.push_str(&self.0);
        key
""")]),
('loc-url', 'remotefile.rs', 'S07,S12', [("""        joined
            .path_segments_mut()
            .map_err(|_| anyhow::Error::msg("URL cannot-be-a-base"))?
            .pop_if_empty()
            .extend(self.segments());
        Ok(joined)
""", """        {
            let mut path = match joined.path_segments_mut() {
                Ok(path) => path,
                Err(()) => anyhow::bail!("URL cannot-be-a-base"),
            };
            path.pop_if_empty();
            for segment in self.segments() {
                path.push(segment);
            }
        }
        Ok(joined)
""")]),
('loc-segments', 'remotefile.rs', 'S07', [("""        self.0.split('/').filter(|s| !s.is_empty())
""", """        self.0.split('/').filter(|&segment| segment != "")
""")]),
('iter-loop', 'remotefile.rs', 'S02,S03,S06', [("""        while self.next.is_empty() {
            if let Some(&filetype) = self.filetypes.next() {
                if !self.filters.is_allowed(self.object_id, filetype) {
                    continue;
                }
                self.next = get_directory_paths(self.layout, filetype, self.object_id);
                if let Some(index) = self.index {
                    self.next.retain(|path| index.contains(path))
                }
            } else {
                return None;
            }
        }

        self.next.pop().map(SourceLocation::new)
""", """        loop {
            if let Some(path) = self.next.pop() {
                return Some(SourceLocation::new(path));
            }
            let filetype = *self.filetypes.next()?;
            if self.filters.is_allowed(self.object_id, filetype) {
                self.next = self.paths_of(filetype);
            }
        }
"""), ("""impl Iterator for SourceLocationIter<'_> {
""", """impl SourceLocationIter<'_> {
    fn paths_of(&self, filetype: FileType) -> Vec<String> {
        let mut paths = get_directory_paths(self.layout, filetype, self.object_id);
        if let Some(index) = self.index {
            paths.retain(|path| index.contains(path));
        }
        paths
    }
}

impl Iterator for SourceLocationIter<'_> {
""")]),
('iter-filter', 'remotefile.rs', 'S02,S03,S06', [("""                self.next = get_directory_paths(self.layout, filetype, self.object_id);
                if let Some(index) = self.index {
                    self.next.retain(|path| index.contains(path))
                }
            } else {
                return None;
            }
""", """                self.next = get_directory_paths(self.layout, filetype, self.object_id)
                    .into_iter()
                    .filter(|path| match self.index {
                        Some(index) => index.contains(path),
                        None => true,
                    })
                    .collect();
            } else {
                return None;
            }
""")]),
('iter-find', 'remotefile.rs', 'S02,S03,S06', [("""            if let Some(&filetype) = self.filetypes.next() {
                if !self.filters.is_allowed(self.object_id, filetype) {
                    continue;
                }
                self.next""", """            let allowed = self
                .filetypes
                .find(|&&filetype| self.filters.is_allowed(self.object_id, filetype));
            if let Some(&filetype) = allowed {
                self.next""")]),
('rf-public', 'remotefile.rs', 'S09,S12', [("""        match self {
            Self::Sentry(_) => false,
            Self::Http(ref x) => x.source.files.is_public,
            Self::S3(ref x) => x.source.files.is_public,
            Self::Gcs(ref x) => x.source.files.is_public,
            Self::Filesystem(ref x) => x.source.files.is_public,
        }
""", """        let files = match self {
            Self::Sentry(_) => return false,
            Self::Http(x) => &x.source.files,
            Self::S3(x) => &x.source.files,
            Self::Gcs(x) => &x.source.files,
            Self::Filesystem(x) => &x.source.files,
        };
        files.is_public
""")]),
('rf-key', 'remotefile.rs', 'S07,S12', [("""        match self {
            Self::Sentry(ref x) => {
                format!("{}.{}.sentryinternal", x.source.id, x.file_id)
            }
            Self::Http(ref x) => {
                format!("{}.{}", x.source.id, x.location)
            }
            Self::S3(ref x) => {
                format!("{}.{}", x.source.id, x.location)
            }
            Self::Gcs(ref x) => {
                format!("{}.{}", x.source.id, x.location)
            }
            Self::Filesystem(ref x) => {
                format!("{}.{}", x.source.id, x.location)
            }
        }
""", """        let location = match self {
            Self::Sentry(x) => {
                return format!("{}.{}.sentryinternal", self.source_id(), x.file_id);
            }
            Self::Http(x) => &x.location,
            Self::S3(x) => &x.location,
            Self::Gcs(x) => &x.location,
            Self::Filesystem(x) => &x.location,
        };
        let mut key = self.source_id().to_string();
        key.push('.');
        key.push_str(&location.to_string());
        key
""")]),
('rf-display', 'remotefile.rs', 'S07,S12', [("""        match self {
            Self::Sentry(ref s) => {
                write!(f, "Sentry source '{}' file id '{}'", s.source.id, s.file_id)
            }
            Self::Http(ref s) => {
                write!(f, "HTTP source '{}' location '{}'", s.source.id, s.location)
            }
            Self::S3(ref s) => {
                write!(f, "S3 source '{}' location '{}'", s.source.id, s.location)
            }
            Self::Gcs(ref s) => {
                write!(f, "GCS source '{}' location '{}'", s.source.id, s.location)
            }
            Self::Filesystem(ref s) => {
                write!(
                    f,
                    "Filesystem source '{}' location '{}'",
                    s.source.id, s.location
                )
            }
        }
""", """        let (kind, location) = match self {
            Self::Sentry(s) => {
                return write!(f, "Sentry source '{}' file id '{}'", s.source.id, s.file_id);
            }
            Self::Http(s) => ("HTTP", &s.location),
            Self::S3(s) => ("S3", &s.location),
            Self::Gcs(s) => ("GCS", &s.location),
            Self::Filesystem(s) => ("Filesystem", &s.location),
        };
        write!(f, "{kind} source '{}' location '{location}'", self.source_id())
""")]),
('rf-metric', 'remotefile.rs', 'S07,S12', [("""        if self.is_builtin() {
            return self.source_id().as_str();
        }
        match self {
            Self::Sentry(..) => "sentry",
            Self::S3(..) => "s3",
            Self::Gcs(..) => "gcs",
            Self::Http(..) => "http",
            Self::Filesystem(..) => "filesystem",
        }
""", """        match self {
            _ if self.is_builtin() => self.source_id().as_str(),
            Self::Sentry(..) => "sentry",
            Self::S3(..) => "s3",
            Self::Gcs(..) => "gcs",
            Self::Http(..) => "http",
            Self::Filesystem(..) => "filesystem",
        }
""")]),
('rf-shared', 'remotefile.rs', 'S07,S12,S09', [("""            RemoteFile::Sentry(_) => true,
            // This is most likely our scraped apple symbols, which are hosted on GCS directly, no
            // need to save them twice in shared cache.
            RemoteFile::Gcs(source) if source.source.id.as_str().starts_with("sentry:") => false,
            _ => true,
""", """            RemoteFile::Gcs(_) => !self.is_builtin(),
            _ => true,
""")]),
('rf-uri', 'remotefile.rs', 'S07,S12', [("""        Url::parse(&format!("{scheme}://{host}/"))
            .and_then(|base| base.join(path))
            .map(|url| RemoteFileUri::new(url.as_str()))
            .unwrap_or_else(|_| {
                // All these Result-returning operations *should* be infallible and this
                // branch should never be used.  Nevertheless, for panic-safety we default
                // to something infallible that's also pretty correct.
                RemoteFileUri::new(format!("{scheme}://{host}/{path}"))
            })
""", """        let base = format!("{scheme}://{host}/");
        match Url::parse(&base).and_then(|base| base.join(path)) {
            Ok(url) => Self::new(url.as_str()),
            Err(_) => Self::new(base + path),
        }
""")]),
('fs-uri', 'sources/filesystem.rs', 'S07,S12', [("""        format!("file://{}", self.path().display()).into()
""", """        let path = self.path();
        RemoteFileUri::new(format!("file://{}", path.display()))
"""), ("""        self.source.path.join(self.location.path())
""", """        let mut path = self.source.path.clone();
        path.push(self.location.path());
        path
""")]),
('http-url', 'sources/http.rs', 'S07,S12', [("""        match self.url() {
            Ok(url) => url.as_ref().into(),
            Err(_) => "".into(),
        }
""", """        self.url()
            .map(|url| RemoteFileUri::new(url.as_str()))
            .unwrap_or_else(|_| RemoteFileUri::new(""))
"""), ("""        self.source.url.host_str().unwrap_or_default().to_string()
""", """        match self.source.url.host_str() {
            Some(host) => host.to_owned(),
            None => String::new(),
        }
"""), ("""        let source = Arc::new(HttpSourceConfig {
            id: SourceId::new("web-scraping"),
            url,
            headers: Default::default(),
            files: Default::default(),
            accept_invalid_certs: !verify_ssl,
        });
        let location = SourceLocation::new("");

        HttpRemoteFile::new(source, location)
""", """        let accept_invalid_certs = !verify_ssl;
        let source = HttpSourceConfig {
            id: SourceId::new("web-scraping"),
            url,
            headers: BTreeMap::new(),
            files: CommonSourceConfig::default(),
            accept_invalid_certs,
        };

        Self::new(Arc::new(source), SourceLocation::new(String::new()))
""")]),
('sentry-url', 'sources/sentry.rs', 'S07,S12,S15', [("""        let url = url.unwrap_or_else(|| {
            let mut url = source.url.clone();
            url.query_pairs_mut().append_pair("id", &file_id.0);
            url
        });
""", """        let url = match url {
            Some(url) => url,
            None => {
                let mut url = source.url.clone();
                url.query_pairs_mut().append_pair("id", &file_id.0);
                url
            }
        };
""")]),
('sentry-url2', 'sources/sentry.rs', 'S07,S12,S15', [("""        let url = url.unwrap_or_else(|| {
            let mut url = source.url.clone();
            url.query_pairs_mut().append_pair("id", &file_id.0);
            url
        });
""", """        let url = url.unwrap_or_else(|| source.file_url(&file_id));
"""), ("""/// The Sentry-specific [`RemoteFile`].
""", """impl SentrySourceConfig {
    fn file_url(&self, file_id: &SentryFileId) -> Url {
        let mut url = self.url.clone();
        url.query_pairs_mut()
            .append_pair("id", &file_id.to_string());
        url
    }
}

/// The Sentry-specific [`RemoteFile`].
"""), ("""        f.debug_struct("SentryRemoteFile")
            .field("id", &self.file_id.0)
            .field("url", &self.url.as_str())
            .finish()
""", """        let mut out = f.debug_struct("SentryRemoteFile");
        out.field("id", &self.file_id.0);
        out.field("url", &self.url.as_str());
        out.finish()
""")]),
('s3-eq', 'sources/s3.rs', 'S14,S12', [("""        self.aws_credentials_provider == other.aws_credentials_provider
            && self.access_key == other.access_key
            && self.secret_key == other.secret_key
            && self.region == other.region
""", """        if self.region != other.region {
            return false;
        }
        (self.aws_credentials_provider, &self.access_key, &self.secret_key)
            == (other.aws_credentials_provider, &other.access_key, &other.secret_key)
""")]),
('s3-eq2', 'sources/s3.rs', 'S14,S12', [("""        self.aws_credentials_provider == other.aws_credentials_provider
            && self.access_key == other.access_key
            && self.secret_key == other.secret_key
            && self.region == other.region
""", """        let Self {
            region,
            aws_credentials_provider,
            access_key,
            secret_key,
        } = self;
        *aws_credentials_provider == other.aws_credentials_provider
            && *access_key == other.access_key
            && *secret_key == other.secret_key
            && *region == other.region
"""), ("""        self.aws_credentials_provider.hash(state);
        self.access_key.hash(state);
        self.secret_key.hash(state);
        self.region.hash(state);
""", """        (
            self.aws_credentials_provider,
            &self.access_key,
            &self.secret_key,
            &self.region,
        )
            .hash(state);
""")]),
('s3-derive', 'sources/s3.rs', 'S14,S12', [("""impl PartialEq for S3SourceKey {
    fn eq(&self, other: &S3SourceKey) -> bool {
        self.aws_credentials_provider == other.aws_credentials_provider
            && self.access_key == other.access_key
            && self.secret_key == other.secret_key
            && self.region == other.region
    }
}

impl Eq for S3SourceKey {}

impl std::hash::Hash for S3SourceKey {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.aws_credentials_provider.hash(state);
        self.access_key.hash(state);
        self.secret_key.hash(state);
        self.region.hash(state);
    }
}
""", ""), ("""#[derive(Clone, Debug, Deserialize, Serialize)]
pub struct S3SourceKey {""", """#[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
pub struct S3SourceKey {""")]),
('s3-ser', 'sources/s3.rs', 'S14,S10,S12', [("""    match region.endpoint.as_ref() {
        Some(endpoint) => {
            let mut seq = s.serialize_tuple(2)?;

            seq.serialize_element(region.region.as_ref())?;
            seq.serialize_element(endpoint.as_str())?;

            seq.end()
        }
        None => s.serialize_str(region.region.as_ref()),
    }
""", """    let Some(endpoint) = &region.endpoint else {
        return s.serialize_str(region.region.as_ref());
    };
    (region.region.as_ref(), endpoint).serialize(s)
"""), ("""            let tup: (String, String) =
                Deserialize::deserialize(serde::de::value::SeqAccessDeserializer::new(seq))?;

            Ok(S3Region {
                region: Region::new(tup.0),
                endpoint: Some(tup.1),
            })
""", """            let (name, endpoint): (String, String) =
                Deserialize::deserialize(serde::de::value::SeqAccessDeserializer::new(seq))?;
            let region = Region::new(name);
            let endpoint = Some(endpoint);

            Ok(S3Region { region, endpoint })
""")]),
('glob-ser', 'types.rs', 'S04,S10,S11', [("""        let s = Cow::<str>::deserialize(deserializer)?;
        s.parse().map_err(de::Error::custom).map(Glob)
""", """        let s: Cow<'_, str> = Deserialize::deserialize(deserializer)?;
        let pattern = glob::Pattern::new(&s).map_err(de::Error::custom)?;
        Ok(Glob(pattern))
"""), ("""        serializer.serialize_str(&self.0.to_string())
""", """        serializer.serialize_str(self.0.as_str())
""")]),
]]
