"""Small edits for selftest/run.py."""
MUTANTS = []
SAME = []
C, M, T, A = "src/controller.rs", "src/main.rs", "src/trace.rs", "src/aggregator.rs"
G, MD, TG, SE, FM = "src/formatters/gnuerr.rs", "src/formatters/markdown.rs", "src/formatters/tags.rs", "src/formatters/serialize.rs", "src/formatters/mod.rs"
PM, PR, PO, MO = "src/parsers/markdown.rs", "src/parsers/rust.rs", "src/parsers/monoreq.rs", "src/models.rs"


def mut(name, want, *edits):
    MUTANTS.append((name, want, list(edits)))


def same(name, *edits):
    SAME.append((name, list(edits)))


# ---- formatters
mut("gnu_dup_same_loc", "C14", (G, "r2.location, r1.id, r1.location,", "r1.location, r1.id, r1.location,"))
mut("gnu_skip_io", "C14", (G, 'writeln!(w, "{}: IO Error: {}", path.display(), err,)?;', "let _ = (path, err);"))
mut("gnu_io_no_path", "C14", (G, 'writeln!(w, "{}: IO Error: {}", path.display(), err,)?;', 'writeln!(w, "{}: IO Error: {}", path.file_name().unwrap_or_default().to_string_lossy(), err,)?;'))
mut("gnu_only_first_relation", "C14", (G, "for rel in &traced_graph.traced_relations {", "for rel in traced_graph.traced_relations.iter().take(1) {"))
mut("gnu_skip_same_artefact", "C14", (G, "        .flat_map(|a| a.errors.iter()),", "        .filter(|a| !a.requirements.is_empty()).flat_map(|a| a.errors.iter()),"))
mut("gnu_break_uncovered", "C14", (G, 'writeln!(w, "{}: {} Uncovered", req.location, req.id)?;', 'writeln!(w, "{}: {} Uncovered", req.location, req.id)?;\n            if req.title.is_none() { break; }'))
mut("gnu_upper_loc", "C14", (G, '"{}: {} Depends on unknown requirement {}",\n                    location,', '"{}: {} Depends on unknown requirement {}",\n                    req.location,'))
mut("gnu_swallow", "C05", (G, 'writeln!(w, "{}: {} Derived", req.location, req.id)?;', 'let _ = writeln!(w, "{}: {} Derived", req.location, req.id);'))
mut("md_swallow", "C05", (MD, '        writeln!(w, "\\n\\n{description}")?;\n    }\n\n    if !req.covers', '        writeln!(w, "\\n\\n{description}").ok();\n    }\n\n    if !req.covers'))
mut("md_dedup_by_id", "C15", (MD, "            for e in &a.errors {\n                err(e, w)?;\n            }\n        }\n    }\n\n    {\n        let errors", "            for e in a.errors.iter().take(20) {\n                err(e, w)?;\n            }\n        }\n    }\n\n    {\n        let errors"))
mut("md_err_no_write", "C15", (MD, "if set.insert(s.clone()) {", "if set.len() < 50 && set.insert(s.clone()) {"))
mut("md_derived_first", "C15", (MD, "for r in derived {", "for r in derived.iter().skip(1) {"))
mut("md_trace_no_title", "C15", (MD, '            .map(|t| format!(": {t}"))', '            .map(|_| String::new())'))
mut("md_trace_ref_loc", "C15", (MD, '''                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;

                derived''', '''                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(&upper_requirement.location),
                )?;
                let _ = reference_location;

                derived'''))
mut("md_link_no_col", "C15", (MD, 'format!("[{file}:{line}:{column}](../{file}?plain=1#L{line})")', '{ let _ = column; format!("[{file}:{line}](../{file}?plain=1#L{line})") }'))
mut("md_list_attr_desc", "C17", (MD, '''    for (k, v) in &req.attributes {
        if k != "Description" {''', '''    for (k, v) in &req.attributes {
        if k != "Description" && k != "Origin" {'''))
mut("md_list_titleless", "C17", (MD, "    for req in reqs {\n", "    for req in reqs.into_iter().filter(|r| r.title.is_some()) {\n"))
mut("md_list_dedup", "C17", (MD, "    reqs.sort_by(|r, o| r.id.cmp(&o.id));", "    reqs.sort_by(|r, o| r.id.cmp(&o.id));\n    reqs.dedup_by(|r, o| r.id == o.id);"))
mut("md_list_covers_or_depends", "C17", (MD, "    if !req.depends.is_empty() {\n", "    if req.covers.is_empty() && !req.depends.is_empty() {\n"))
mut("tags_column", "C17", (TG, "Some(LocationInFile::Line(line) | LocationInFile::LineAndColumn(line, _)) => {", "Some(LocationInFile::Line(line)) => {"), (TG, "Some(LocationInFile::String(_)) | None", "Some(LocationInFile::LineAndColumn(_, _)) | Some(LocationInFile::String(_)) | None"))
mut("tags_dedup", "C17", (TG, "    lines.sort();", "    lines.sort();\n    lines.dedup_by_key(|l| l.len());"))
mut("json_first_errors", "C16", (SE, "let mut errors: Vec<_> = errors.map(models::Error::clone).collect();\n        errors.sort_unstable_by_key(ToString::to_string);\n        Self {\n            version: VERSION,\n            requirements,", "let mut errors: Vec<_> = errors.map(models::Error::clone).collect();\n        errors.sort_unstable_by_key(ToString::to_string);\n        errors.dedup();\n        Self {\n            version: VERSION,\n            requirements,"))
mut("json_filter_reqs", "C16", (SE, "let mut requirements: Vec<_> = requirements.map(Rc::clone).collect();", "let mut requirements: Vec<_> = requirements.filter(|r| !r.attributes.is_empty() || !r.covers.is_empty()).map(Rc::clone).collect();"))
same("gnu_helper", (G, '            writeln!(w, "{}: {} Uncovered", req.location, req.id)?;', '            uncovered_line(req, w)?;'),
     (G, "pub fn tracing(", "fn uncovered_line(req: &crate::models::Requirement, w: &mut impl io::Write) -> io::Result<()> {\n    writeln!(w, \"{}: {} Uncovered\", req.location, req.id)\n}\n\npub fn tracing("))
same("gnu_nested_for", (G, '''    errors(
        traced_graph
            .artefacts
            .values()
            .flat_map(|a| a.errors.iter()),
        w,
    )?;''', '''    for a in traced_graph.artefacts.values() {
        errors(a.errors.iter(), w)?;
    }'''))
same("gnu_err_string", (G, '            Error::Format(loc, err) => {\n                writeln!(w, "{loc}: {err}")?;', '            Error::Format(loc, err) => {\n                let line = format!("{}: {}", loc, err);\n                w.write_all(line.as_bytes())?;\n                w.write_all(b"\\n")?;'))
same("gnu_try_for_each", (G, '''        for req in &rel.uncovered {
            let req = &traced_graph.artefacts[&rel.relation.upper].requirements[req];
            writeln!(w, "{}: {} Uncovered", req.location, req.id)?;
        }''', '''        let upper = &traced_graph.artefacts[&rel.relation.upper];
        rel.uncovered.iter().map(|id| &upper.requirements[id]).try_for_each(|req| writeln!(w, "{}: {} Uncovered", req.location, req.id))?;'''))
same("gnu_buffer", (G, '    writeln!(w, "Derived Requirement")?;', '    let mut buf: Vec<u8> = Vec::new();\n    writeln!(buf, "Derived Requirement")?;'),
     (G, 'writeln!(w, "## {}", art)?;', 'writeln!(buf, "## {}", art)?;'), (G, '"{}: {} Derived", req.location, req.id)?;\n        }\n    }\n', '"{}: {} Derived", req.location, req.id)?;\n        }\n    }\n    w.write_all(&buf)?;\n'),
     (G, 'writeln!(w, "{}: {} Derived"', 'writeln!(buf, "{}: {} Derived"'), (G, "use std::io;\n", "use std::io;\nuse std::io::Write as _;\n"))
same("gnu_or_merge", (G, '''            Error::DependOnUnknownRequirement(req, depend, location) => {
                writeln!(
                    w,
                    "{}: {} Depends on unknown requirement {}",
                    location, req.id, depend
                )?;
            }
            Error::CoversUnknownRequirement(req, cover, location) => {
                writeln!(
                    w,
                    "{}: {} Covers unknown requirement {}",
                    location, req.id, cover
                )?;
            }''', '''            Error::DependOnUnknownRequirement(req, id, location)
            | Error::CoversUnknownRequirement(req, id, location) => {
                let verb = if matches!(err, Error::DependOnUnknownRequirement(..)) { "Depends on" } else { "Covers" };
                writeln!(w, "{location}: {} {verb} unknown requirement {id}", req.id)?;
            }'''))
same("md_string_set", (MD, '''            let mut set: HashSet<Vec<u8>> = HashSet::new();
            for e in errors {
                // echo each error string only once
                let mut s = Vec::new();
                err(e, &mut s)?;
                if set.insert(s.clone()) {
                    w.write_all(&s)?;
                }
            }''', '''            let mut seen: HashSet<Vec<u8>> = HashSet::new();
            for e in errors {
                // echo each error string only once
                let mut text = Vec::new();
                err(e, &mut text)?;
                if seen.contains(&text) {
                    continue;
                }
                w.write_all(&text)?;
                seen.insert(text);
            }'''))
same("md_headline_any", (MD, '''        let mut headline = false;

        for rel in &traced_graph.traced_relations {
            if !rel.uncovered.is_empty() {
                if !headline {
                    headline = true;
                    writeln!(w)?;
                    writeln!(w)?;
                    writeln!(w, "# Uncovered Requirements")?;
                    writeln!(w)?;
                }
''', '''        if traced_graph.traced_relations.iter().any(|r| !r.uncovered.is_empty()) {
            writeln!(w)?;
            writeln!(w)?;
            writeln!(w, "# Uncovered Requirements")?;
            writeln!(w)?;
        }

        for rel in &traced_graph.traced_relations {
            if !rel.uncovered.is_empty() {
'''))
same("md_req_ref_helper", (MD, '''        writeln!(w, "\\nCovers:")?;
        for c in &req.covers {
            if let Some(title) = &c.title {
                writeln!(w, "*   {}: {}", c.id, title)?;
            } else {
                writeln!(w, "*   {}", c.id,)?;
            }
        }
    }
    if !req.depends.is_empty() {
        writeln!(w, "\\nDepends:")?;
        for d in &req.depends {
            if let Some(title) = &d.title {
                writeln!(w, "*   {}: {}", d.id, title)?;
            } else {
                writeln!(w, "*   {}", d.id,)?;
            }
        }
    }
''', '''        references("Covers", &req.covers, w)?;
    }
    if !req.depends.is_empty() {
        references("Depends", &req.depends, w)?;
    }
'''), (MD, "pub fn requirement(req", '''fn references(what: &str, refs: &[Reference], w: &mut impl io::Write) -> io::Result<()> {
    writeln!(w, "\\n{what}:")?;
    for r in refs {
        match &r.title {
            Some(title) => writeln!(w, "*   {}: {}", r.id, title)?,
            None => writeln!(w, "*   {}", r.id)?,
        }
    }
    Ok(())
}

pub fn requirement(req'''))
same("md_list_btree", (MD, '''    reqs.sort_by(|r, o| r.id.cmp(&o.id));

    for req in reqs {''', '''    reqs.sort_by_key(|r| r.id.clone());
    for req in reqs.iter() {'''))
same("md_list_attr_filter", (MD, '''    for (k, v) in &req.attributes {
        if k != "Description" {
            let v = v.trim();
            if !v.is_empty() {
                writeln!(w, "\\n{k}:")?;
                writeln!(w, "{v}")?;
            }
        }
    }

    Ok(())
}

pub fn requirements''', '''    for (k, v) in req.attributes.iter().filter(|(k, _)| k.as_str() != "Description") {
        let v = v.trim();
        if v.is_empty() {
            continue;
        }
        writeln!(w, "\\n{k}:\\n{v}")?;
    }

    Ok(())
}

pub fn requirements'''))
same("tags_collect", (TG, '''    let mut lines: Vec<String> = Vec::new();
    for req in graph
        .artefacts
        .values()
        .flat_map(|art| art.requirements.values())
    {
        match req.location.location_in_file {
            Some(LocationInFile::Line(line) | LocationInFile::LineAndColumn(line, _)) => {
                lines.push(format!(
                    "{}\\t{}\\t{};\\"\\tr\\n",
                    req.id,
                    req.location.file.display(),
                    line,
                ));
            }
            Some(LocationInFile::String(_)) | None => {}
        }
    }
    lines.sort();
    for l in lines {
        w.write_all(l.as_bytes())?;
    }
''', '''    let mut lines: Vec<String> = graph
        .artefacts
        .values()
        .flat_map(|art| art.requirements.values())
        .filter_map(|req| {
            let line = match req.location.location_in_file {
                Some(LocationInFile::Line(line) | LocationInFile::LineAndColumn(line, _)) => line,
                _ => return None,
            };
            Some(format!("{}\\t{}\\t{};\\"\\tr\\n", req.id, req.location.file.display(), line))
        })
        .collect();
    lines.sort();
    w.write_all(lines.concat().as_bytes())?;
'''))
same("ser_loop", (SE, "        let mut requirements: Vec<_> = requirements.map(Rc::clone).collect();", "        let mut requirements_vec = Vec::new();\n        for r in requirements {\n            requirements_vec.push(Rc::clone(r));\n        }\n        let mut requirements = requirements_vec;"))
# ---- aggregation
mut("agg_swap", "C15", (A, "                    .push((lower_req, &cov.location));", "                    .push((upper_req, &cov.location));"))
mut("agg_only_down", "C15", (A, '''                requirements
                    .get_mut(&cov.lower)
                    .unwrap()
                    .covers
                    .get_mut(&rel.relation)
                    .unwrap()
                    .push((upper_req, &cov.location));''', '''                if matches!(cov.direction, crate::models::CoverageDirection::Upwards) { requirements
                    .get_mut(&cov.lower)
                    .unwrap()
                    .covers
                    .get_mut(&rel.relation)
                    .unwrap()
                    .push((upper_req, &cov.location)); }'''))
mut("agg_first_lower", "C15", (A, "            for lower_art_id in &rel.relation.lower {", "            for lower_art_id in rel.relation.lower.iter().take(2) {"))
mut("agg_loc", "C15", (A, "                    .push((lower_req, &cov.location));", "                    .push((lower_req, &lower_req.location));"))
same("agg_merge_loops", (A, '''        }

        for rel in &traced_graph.traced_relations {
            for cov in''', '''
            for cov in'''))
same("agg_helper", (A, '''                requirements
                    .get_mut(&cov.upper)
                    .unwrap()
                    .depends
                    .get_mut(&rel.relation)
                    .unwrap()
                    .push((lower_req, &cov.location));
''', '''                if let Some(list) = requirements.get_mut(&cov.upper).and_then(|r| r.depends.get_mut(&rel.relation)) {
                    list.push((lower_req, &cov.location));
                }
'''))
same("agg_entry", (A, '''                        .covers
                        .insert(&rel.relation, vec![]);''', '''                        .covers
                        .entry(&rel.relation)
                        .or_default();'''))

# ---- parsers
mut("mk_no_commit_heading", "C19", (PM, "            maybe_commit_req(context);\n            state\n", "            if context.level > 1 { maybe_commit_req(context); }\n            state\n"))
mut("mk_desc_nl_drop", "C19", (PM, "        State::CollectDesc(mut desc) => {\n            desc.push('\\n');\n            State::CollectDescNl(desc)", "        State::CollectDesc(desc) => {\n            State::CollectDescNl(desc)"))
mut("mk_desc_eof_nl", "C19", (PM, "        State::CollectDescNl(desc) => {\n            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);\n            maybe_commit_req(context);", "        State::CollectDescNl(_) => {\n            maybe_commit_req(context);"))
mut("mk_attr_trim", "C19", (PM, "State::CollectTextAttr(attr.to_owned(), first_line.to_owned())", "State::CollectTextAttr(attr.to_owned(), first_line.to_lowercase())"))
mut("mk_ref_no_title", "C19", (PM, "                let title = ref_link.get(2).map(|m| m.as_str().to_owned());", "                let title = ref_link.get(2).map(|m| m.as_str().to_owned()).filter(|t| t.len() > 2);"))
mut("mk_short_first", "C19", (PM, "for id in short_list.split(',') {", "for id in short_list.split(',').take(1) {"))
mut("mk_short_no_trim", "C19", (PM, "let id = id.trim().to_owned();", "let id = id.to_owned();"))
mut("mk_short_dedup", "C19", (PM, "        if !id.is_empty() {\n", "        if !id.is_empty() && !vec.iter().any(|r: &Reference| r.id.to_string() == id) {\n"))
mut("mk_swap", "C19", (PM, "    if attr == ATTR_COVERS {\n        context.req_under_construction.as_mut().unwrap().covers = vec;", "    if attr == ATTR_COVERS && !vec.is_empty() && vec[0].title.is_none() {\n        context.req_under_construction.as_mut().unwrap().depends = vec;\n    } else if attr == ATTR_COVERS {\n        context.req_under_construction.as_mut().unwrap().covers = vec;"))
mut("mk_silent_attr", "C19", (PM, "                let err = Error::Format(\n                    context.location(),\n                    \"Expected an Attribute line like `Comment:`\".into(),\n                );\n                log::info!(\"found problem {:#?}\", &err);\n                context.errors.push(err);\n                State::LookForReq", "                State::LookForReq"))
mut("mk_err_no_ref_commit", "C19", (PM, "                commit_link_attr(context, attr, vec);\n                let err", "                if vec.len() > 1 { commit_link_attr(context, attr, vec); }\n                let err"))
mut("mk_blank_err", "C19", (PM, "            } else if line.trim().is_empty() {\n                commit_link_attr(context, attr, vec);\n                State::LookForAttr\n", "            } else if line.trim().is_empty() {\n                State::CollectRefLink(attr, vec)\n"))
mut("mk_req_pending_refs", "C19", (PM, "        State::CollectRefLink(attr, vec) => {\n            commit_link_attr(context, attr, vec);\n        }\n        _ => {}", "        _ => {}"))
mut("mk_attr_after_desc", "C19", (PM, "        State::CollectDesc(mut desc) => {\n            desc.push_str(line);\n            State::CollectDesc(desc)", "        State::CollectDesc(mut desc) => {\n            if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {\n                commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);\n                return start_attribute(context, &attr_line);\n            }\n            desc.push_str(line);\n            State::CollectDesc(desc)"))
mut("mk_io_lost", "C19", (PM, "evt = Event::Eof; // keep what", "return (context.requirements, context.errors); // keep what"))
mut("mk_io_silent", "C19", (PM, "                context.errors.push(err);\n                evt = Event::Eof;", "                if context.requirements.is_empty() { context.errors.push(err); }\n                evt = Event::Eof;"))
mut("mk_title_regex", "C19", (PM, r'''\p{XID_Continue}+):\s*(.+?)\s*$").unwrap();
    static ref ATTRIBUTE''', r'''\p{XID_Continue}*):\s*(.+?)\s*$").unwrap();
    static ref ATTRIBUTE'''))
mut("mk_attr_regex", "C19", (PM, r"^([A-Z][a-z]+):\s*(.*)\s*$", r"^([A-Z][a-zA-Z]+):\s*(.*)\s*$"))
mut("mk_loc_off", "C20", (PM, "        Location::new_with_line_no(self.path.to_owned(), self.line_number)", "        Location::new_with_line_no(self.path.to_owned(), self.line_number.max(2))"))
mut("mk_loc_once", "C20", (PM, "        context.line_number += 1;\n", "        if !matches!(state, State::CollectTextAttr(..)) { context.line_number += 1; }\n"))
mut("mk_loc_eof", "C20", (PM, "            Ok(1) if line.starts_with('\\n') => {\n", "            Ok(1) if line.starts_with('\\n') => {\n                if state == State::LookForAttr { context.line_number -= 1; }\n"))
mut("mk_loc_file", "C20", (PM, "Location::new_with_line_no(self.path.to_owned(), self.line_number)", "Location::new_with_line_no(self.path.file_name().unwrap().into(), self.line_number)"))
mut("mk_dup_silent", "C19", (PM, "                .attributes\n                .contains_key(attr)\n            {", "                .attributes\n                .contains_key(attr) && attr != \"Description\"\n            {"))
mut("mk_text_glue", "C19", (PM, "if !val.is_empty() && !val.ends_with('\\n') {", "if val.len() > 1 && !val.ends_with('\\n') {"))
mut("mo_last_title", "C22", (PO, "if title.is_none() {", "if title.is_none() || title.as_deref() == Some(\"\") {"))
mut("mo_title_trim", "C22", (PO, "title = Some(line);", "title = Some(line.trim().to_owned());"))
mut("mo_limit", "C22", (PO, "for (no, line) in reader.lines().enumerate() {", "for (no, line) in reader.lines().enumerate().take(1000) {"))
mut("mo_skip_dup", "C22", (PO, "                    depends.push(reference);", "                    if depends.last().map_or(true, |d| d.id != reference.id) { depends.push(reference); }"))
mut("mo_err_continue_silent", "C22", (PO, "                errors.push(err);\n                break;", "                if title.is_some() { errors.push(err); }\n                break;"))
mut("mo_stop_blank", "C22", (PO, "            Ok(line) => {\n                if title", "            Ok(line) => {\n                if line.is_empty() && !depends.is_empty() { break; }\n                if title"))
mut("mo_line", "C20", (PO, "path.to_path_buf(), no + 1)", "path.to_path_buf(), no)"))
mut("mo_id", "C22", (PO, "stem.to_string_lossy().to_string().into()", "stem.to_string_lossy().to_string().to_uppercase().into()"))
mut("mo_title_group", "C22", (PO, "ref_link.get(2).map(", "ref_link.get(1).map("))
mut("mo_regex", "C22", (PO, r"(?::\s*(.+?))?\s*$", r"(?::\s*(.+))?\s*$"))
mut("mo_covers", "C22", (PO, "        depends,\n        covers: vec![],", "        covers: depends,\n        depends: vec![],"))

same("mk_regex", (PM, r"^([A-Z][a-z]+):\s*(.*)\s*$", r"^([A-Z][a-z]{1,}):[\s]*(.*)\s*$"))
same("mk_heading_char", (PM, "HEADING_LINE.is_match(&line)", "line.starts_with('#')"))
same("mk_commit_fn", (PM, "    match state {\n        State::CollectDesc(desc) => {\n            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);\n        }\n        State::CollectDescNl(desc) => {\n            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);\n        }\n        State::CollectTextAttr(attr, val) => {\n            commit_attr(context, attr, val);\n        }\n        State::CollectRefLink(attr, vec) => {\n            commit_link_attr(context, attr, vec);\n        }\n        _ => {}\n    }\n    add_req", "    finish(state, context);\n    add_req"),
     (PM, "fn maybe_commit_req(", "fn finish(state: State, context: &mut Context<'_>) {\n    match state {\n        State::CollectDesc(d) | State::CollectDescNl(d) => commit_attr(context, ATTR_DESCRIPTION.to_owned(), d),\n        State::CollectTextAttr(attr, val) => commit_attr(context, attr, val),\n        State::CollectRefLink(attr, vec) => commit_link_attr(context, attr, vec),\n        State::LookForReq | State::LookForDesc | State::LookForAttr => {}\n    }\n}\n\nfn maybe_commit_req("))
same("mk_line_after", (PM, "        line_number: 0,", "        line_number: 1,"), (PM, "        context.line_number += 1;\n        match reader", "        match reader"), (PM, "        if let Event::Eof = evt {\n            break;\n        }\n", "        if let Event::Eof = evt {\n            break;\n        }\n        context.line_number += 1;\n"))
same("mk_short_iter", (PM, """    let mut vec = Vec::new();
    let short_list = short_list.trim();
    for id in short_list.split(',') {
        let id = id.trim().to_owned();
        let location = context.location();
        if !id.is_empty() {
            vec.push(Reference {
                id: id.into(),
                title: None,
                location,
            });
        }
    }
""", """    let vec = short_list
        .split(',')
        .map(str::trim)
        .filter(|id| !id.is_empty())
        .map(|id| Reference {
            id: id.to_owned().into(),
            title: None,
            location: context.location(),
        })
        .collect();
"""))
same("mk_error_fn", (PM, """                let err = Error::Format(
                    context.location(),
                    "Expected an Attribute line like `Comment:`".into(),
                );
                log::info!("found problem {:#?}", &err);
                context.errors.push(err);
                State::LookForReq""", """                problem(context, "Expected an Attribute line like `Comment:`")"""),
     (PM, "fn maybe_commit_req(", "fn problem(context: &mut Context<'_>, text: &str) -> State {\n    let at = context.location();\n    context.errors.push(Error::Format(at, text.to_owned()));\n    State::LookForReq\n}\n\nfn maybe_commit_req("))
same("mk_while", (PM, "        if let Event::Eof = evt {\n            break;\n        }\n    }\n\n    (context.requirements, context.errors)", "        if matches!(evt, Event::Eof) {\n            return (context.requirements, context.errors);\n        }\n    }"))
same("mk_empty_eq", (PM, "Ok(1) if line.starts_with('\\n') => {", "Ok(_) if line == \"\\n\" => {"))
same("mk_dup_if", (PM, "        ATTR_COVERS => {\n            if !context\n                .req_under_construction\n                .as_ref()\n                .unwrap()\n                .covers\n                .is_empty()\n            {", "        ATTR_COVERS => {\n            let req = context.req_under_construction.as_ref().unwrap();\n            if req.covers.len() > 0 {"))
same("mo_helper", (PO, "                    let location = Location::new_with_line_no(path.to_path_buf(), no + 1);\n", "                    let location = at(path, no);\n"), (PO, "pub fn parse<", "fn at(path: &Path, index: usize) -> Location {\n    let line = index + 1;\n    Location::new_with_line_no(path.into(), line)\n}\n\npub fn parse<"))
same("mo_count", (PO, "    for (no, line) in reader.lines().enumerate() {\n        match line {", "    let mut no = 0;\n    for line in reader.lines() {\n        no += 1;\n        match line {"), (PO, "path.to_path_buf(), no + 1)", "path.to_path_buf(), no)"))
same("mo_match", (PO, "                if title.is_none() {\n                    title = Some(line);\n                } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {", "                if no == 0 {\n                    title = Some(line);\n                } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {"))
same("mo_title_if", (PO, "let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());", "let referenced_title = if let Some(m) = ref_link.get(2) {\n                        Some(m.as_str().to_string())\n                    } else {\n                        None\n                    };"))
same("mo_early", (PO, """                if title.is_none() {
                    title = Some(line);
                } else if""", """                if title.is_none() {
                    title = Some(line);
                    continue;
                }
                if"""))
same("mo_stem", (PO, """        if let Some(stem) = path.file_stem() {
            stem.to_string_lossy().to_string().into()
        } else {""", """        if path.file_stem().is_some() {
            path.file_stem().unwrap().to_string_lossy().into_owned().into()
        } else {"""))

# ---- rust parser
mut("rs_last_only", "C21", (PR, "self.requirements.iter_mut().find(|req| req.id == id)", "self.requirements.last_mut().filter(|req| req.id == id)"))
mut("rs_no_lookup", "C21", (PR, "self.requirements.iter_mut().find(|req| req.id == id)", "None::<&mut Rc<Requirement>>.filter(|req| req.id == id)"))
mut("rs_wrong_req", "C21", (PR, "self.requirements.iter_mut().find(|req| req.id == id)", "self.requirements.iter_mut().find(|req| !req.covers.is_empty())"))
mut("rs_depends", "C21", (PR, "Rc::get_mut(req).unwrap().covers.push(reference);", "Rc::get_mut(req).unwrap().depends.push(reference);"))
mut("rs_skip_second", "C21", (PR, "                    Rc::get_mut(req).unwrap().covers.push(reference);", "                    if req.covers.len() < 2 { Rc::get_mut(req).unwrap().covers.push(reference); }"))
mut("rs_no_title", "C21", (PR, "Some((id.to_string(), Some(title)))", "Some((id.to_string(), Some(title).filter(|_| false)))"))
mut("rs_title_trim", "C21", (PR, "Some((id.to_string(), Some(title)))", "Some((id.to_string(), Some(title.trim().to_owned())))"))
mut("rs_raw_title", "C21", (PR, "return Some(string.value());", "return Some(literal.to_string().replace('\"', \"\"));"))
mut("rs_other_name", "C21", (PR, 'seg[0].ident != "requirement_covered"', 'seg[0].ident != "requirement_cover"'))
mut("rs_first_loc", "C20", (PR, "self.locations.last().cloned()", "self.locations.first().cloned()"))
mut("rs_no_err", "C21", (PR, """                    log::info!("found problem {:#?}", &err);
                    self.errors.push(err);
                    None
                }
            }
            _ => {""", """                    log::info!("found problem {:#?}", &err);
                    None
                }
            }
            _ => {"""))
mut("rs_outside_silent", "C21", (PR, """                log::info!("found problem {:#?}", &err);
                self.errors.push(err);
                return true;""", """                log::info!("found problem {:#?}", &err);
                return true;"""))
mut("rs_many_args_silent", "C21", (PR, """                log::info!("found problem {:#?}", &err);
                self.errors.push(err);
                None
            }
        } {""", """                log::info!("found problem {:#?}", &err);
                None
            }
        } {"""))
mut("rs_scope_sep", "C21", (PR, 'self.scope.join("::")', 'self.scope.join(".")'))
mut("rs_scope_last", "C21", (PR, 'self.scope.join("::").into()', 'self.scope.last().cloned().unwrap_or_default().into()'))
mut("rs_no_pop", "C21", (PR, """        visit::visit_item_trait(self, node);
        self.locations.pop().unwrap();""", """        visit::visit_item_trait(self, node);
        if self.locations.len() > 8 { self.locations.pop().unwrap(); }"""))
mut("rs_no_walk", "C21", (PR, "        visit::visit_trait_item_method(self, node);\n", "        if let Some(b) = &node.default { for s in &b.stmts { self.visit_stmt(s); break; } }\n"))
mut("rs_walk_cond", "C21", (PR, "        visit::visit_item_mod(self, node);\n", "        if node.attrs.is_empty() { visit::visit_item_mod(self, node); }\n"))
mut("rs_pop_before", "C21", (PR, """        visit::visit_item_mod(self, node);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();""", """        self.locations.pop().unwrap();
        self.scope.pop().unwrap();
        visit::visit_item_mod(self, node);"""))
mut("rs_impl_no_trait", "C21", (PR, 'symbol = format!("({type_} as {trait_})");', "symbol = type_;"))
mut("rs_no_impl_method", "C21", (PR, "fn visit_impl_item_method(", "#[cfg(any())]\n    fn visit_impl_item_method("))
mut("rs_syntax_silent", "C21", (PR, """                );
                log::info!("found problem {:#?}", &err);
                errors.push(err);
            }
            Ok(file)""", """                );
                log::info!("found problem {:#?}", &err);
            }
            Ok(file)"""))
mut("rs_err_loc", "C20", (PR, "Location::new_with_line_and_column(path.into(), pos.line, pos.column),", "Location::new_with_no_pos(path.into()),"))
mut("rs_loc_end", "C20", (PR, "    let start = span.start();\n", "    let start = span.end();\n"))
mut("rs_loc_swap", "C20", (PR, "Location::new_with_line_and_column(path.to_path_buf(), start.line, start.column)", "Location::new_with_line_and_column(path.to_path_buf(), start.column, start.line)"))
mut("rs_errors_lost", "C21", (PR, "return (p.requirements, p.errors);", "return (p.requirements, Vec::new());"))
same("rs_with_item", (PR, """        self.scope.push(node.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.ident.span()));
        visit::visit_item_mod(self, node);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();""", """        self.enter(node.ident.to_string(), &node.ident.span());
        visit::visit_item_mod(self, node);
        self.leave();"""), (PR, "impl Parser<'_> {", """impl Parser<'_> {
    fn enter(&mut self, name: String, span: &Span) {
        self.locations.push(location_from_span(self.path, span));
        self.scope.push(name);
    }
    fn leave(&mut self) {
        self.scope.pop().unwrap();
        self.locations.pop().unwrap();
    }
"""))
same("rs_within", (PR, """        self.scope.push(node.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.ident.span()));
        visit::visit_item_mod(self, node);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();""", """        self.within(&node.ident, |p| visit::visit_item_mod(p, node));"""), (PR, "impl Parser<'_> {", """impl Parser<'_> {
    fn within(&mut self, name: &syn::Ident, walk: impl FnOnce(&mut Self)) {
        self.scope.push(name.to_string());
        self.locations.push(location_from_span(self.path, &name.span()));
        walk(self);
        self.locations.pop();
        self.scope.pop();
    }
"""))
same("rs_problem", (PR, """                log::info!("found problem {:#?}", &err);
                self.errors.push(err);
                None
            }
        } {""", """                self.problem(err);
                None
            }
        } {"""), (PR, "impl Parser<'_> {", """impl Parser<'_> {
    fn problem(&mut self, err: Error) {
        log::info!("found problem {:#?}", &err);
        self.errors.push(err);
    }
"""))
same("rs_is_ident", (PR, """        if seg.len() != 1 {
            return false;
        }
        if seg[0].ident != "requirement_covered" {
            return false;
        }
""", """        if !node.mac.path.is_ident("requirement_covered") {
            return false;
        }
"""))
same("rs_get_ident", (PR, """        if seg.len() != 1 {
            return false;
        }
        if seg[0].ident != "requirement_covered" {
            return false;
        }
""", """        match node.mac.path.get_ident() {
            Some(i) if i == "requirement_covered" => {}
            _ => return false,
        }
"""))
same("rs_position", (PR, """            match self.requirements.iter_mut().find(|req| req.id == id) {
                Some(req) => {
                    Rc::get_mut(req).unwrap().covers.push(reference);
                }
                None => {""", """            match self.requirements.iter().position(|req| req.id == id) {
                Some(i) => {
                    Rc::get_mut(&mut self.requirements[i]).unwrap().covers.push(reference);
                }
                None => {"""))
same("rs_loop", (PR, """            match self.requirements.iter_mut().find(|req| req.id == id) {
                Some(req) => {
                    Rc::get_mut(req).unwrap().covers.push(reference);
                }
                None => {""", """            for req in &mut self.requirements {
                if req.id == id {
                    Rc::get_mut(req).unwrap().covers.push(reference);
                    return true;
                }
            }
            {
                {"""))
same("rs_slice", (PR, "        if let Some((referenced_id, title)) = match tokens.len() {\n            0 => {", "        if let Some((referenced_id, title)) = match tokens.as_slice() {\n            [] => {"),
     (PR, "            1 => {\n", "            [_] => {\n"), (PR, "            3 => {\n", "            [_, _, _] => {\n"))
same("rs_slice_bind", (PR, "        if let Some((referenced_id, title)) = match tokens.len() {\n            0 => {", "        if let Some((referenced_id, title)) = match tokens.as_slice() {\n            [] => {"),
     (PR, "            1 => {\n                // requirement_covered!(IDENT)\n                if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {", "            [proc_macro2::TokenTree::Ident(id)] => Some((id.to_string(), None)),\n            [_] => {\n                // requirement_covered!(IDENT)\n                if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {"), (PR, "            3 => {\n", "            [_, _, _] => {\n"))
same("rs_parse2", (PR, """    if let proc_macro2::TokenTree::Literal(literal) = token {
        if let syn::Lit::Str(string) = syn::Lit::new(literal.clone()) {
            return Some(string.value());
        }
    }
    None""", """    syn::parse2::<syn::LitStr>(token.clone().into()).ok().map(|s| s.value())"""))
same("rs_parse_split", (PR, """        Ok(_bytes) => match parse_file(&source) {""", """        Ok(_bytes) => match syn::parse_str::<syn::File>(&source) {"""))
same("rs_q", (PR, """            Ok(file) => {
                let mut p = Parser {
                    requirements,
                    errors,
                    path,
                    scope: Vec::new(),
                    locations: Vec::new(),
                };
                p.visit_file(&file);
                return (p.requirements, p.errors);""", """            Ok(file) => {
                let mut p = Parser {
                    requirements,
                    errors,
                    path,
                    scope: Vec::new(),
                    locations: Vec::new(),
                };
                visit::visit_file(&mut p, &file);
                let Parser { requirements, errors, .. } = p;
                return (requirements, errors);"""))

# ---- value types
IDD = '''#[derive(Serialize, Deserialize, Clone, Debug, Ord, PartialOrd, Eq, PartialEq)]
pub struct RequirementId(String);
'''
mut("val_eq_nocase", "C27", (MO, IDD, '''#[derive(Serialize, Deserialize, Clone, Debug, Ord, PartialOrd, Eq)]
pub struct RequirementId(String);
impl PartialEq for RequirementId {
    fn eq(&self, other: &Self) -> bool {
        self.0.eq_ignore_ascii_case(&other.0)
    }
}
'''))
mut("val_cmp_nocase", "C27", (MO, IDD, '''#[derive(Serialize, Deserialize, Clone, Debug, Eq, PartialEq)]
pub struct RequirementId(String);
impl PartialOrd for RequirementId {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
}
impl Ord for RequirementId {
    fn cmp(&self, other: &Self) -> Ordering { self.0.to_lowercase().cmp(&other.0.to_lowercase()) }
}
'''))
mut("val_cmp_natural", "C27", (MO, IDD, '''#[derive(Serialize, Deserialize, Clone, Debug, Eq, PartialEq)]
pub struct RequirementId(String);
impl PartialOrd for RequirementId {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
}
impl Ord for RequirementId {
    fn cmp(&self, other: &Self) -> Ordering {
        let split = |s: &str| {
            let t = s.trim_end_matches(|c: char| c.is_ascii_digit());
            (t.to_owned(), s[t.len()..].parse::<u64>().unwrap_or(0))
        };
        split(&self.0).cmp(&split(&other.0))
    }
}
'''))
mut("val_from_trim", "C27", (MO, '''impl From<String> for RequirementId {
    fn from(value: String) -> Self {
        Self(value)''', '''impl From<String> for RequirementId {
    fn from(value: String) -> Self {
        Self(value.trim().to_owned())'''))
IDS = '''#[derive(Deserialize, Clone, Debug, Ord, PartialOrd, Eq, PartialEq)]
pub struct RequirementId(String);
impl Serialize for RequirementId {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(%s) }
}
'''
mut("val_ser_upper", "C27", (MO, IDD, IDS % "&self.0.to_uppercase()"))
same("val_ser_str", (MO, IDD, IDS % "&self.0"))
same("val_eq_hand", (MO, IDD, '''#[derive(Serialize, Deserialize, Clone, Debug, Eq)]
pub struct RequirementId(String);
impl PartialEq for RequirementId {
    fn eq(&self, other: &Self) -> bool { self.0.as_str() == other.0.as_str() }
}
impl PartialOrd for RequirementId {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
}
impl Ord for RequirementId {
    fn cmp(&self, other: &Self) -> Ordering { self.0.as_bytes().cmp(other.0.as_bytes()) }
}
'''))
mut("val_req_skip_tags", "C16", (MO, "    pub tags: Vec<String>,\n", "    #[serde(skip)]\n    pub tags: Vec<String>,\n"))
mut("val_req_skip_if", "C16", (MO, "    pub attributes: BTreeMap<String, String>,\n}", "    #[serde(default, skip_serializing_if = \"few\")]\n    pub attributes: BTreeMap<String, String>,\n}\n\nfn few(m: &BTreeMap<String, String>) -> bool { m.len() < 2 }\n"))
same("val_req_skip_none", (MO, "    pub title: Option<String>,\n    pub location: Location,\n    pub covers: Vec<Reference>", "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub title: Option<String>,\n    pub location: Location,\n    pub covers: Vec<Reference>"))
mut("val_swap_names", "C16", (MO, "    /// `(upper.id, lower.id, location)`\n    pub covered:", "    #[serde(rename = \"uncovered\")]\n    pub covered:"), (MO, "    /// `upper.id`\n    pub uncovered:", "    #[serde(rename = \"covered\")]\n    pub uncovered:"))
mut("val_err_no_loc", "C14 C15", (MO, 'covers unknown Requirement {1} at {2}")]', 'covers unknown Requirement {1}")]'))
mut("val_err_title", "C14 C15", (MO, '<- {lower} with {wrong_title} at', '<- {lower} with wrong title at'))
mut("val_rel_first", "C15", (MO, "            .lower\n            .iter()", "            .lower\n            .iter().take(3)"))
mut("val_rel_filter", "C15", (MO, "            .lower\n            .iter()", "            .lower\n            .iter().filter(|l| **l != self.upper)"))
mut("val_loc_swap", "C28", (MO, "Some(LocationInFile::LineAndColumn(line, column))\n            } else", "Some(LocationInFile::LineAndColumn(column, line))\n            } else"))
mut("val_loc_default", "C28", (MO, '''                    .parse()
                    .map_err(|e| format!("Error parsing column {column}: {e}"))?;''', '''                    .parse()
                    .unwrap_or(1);'''))
mut("val_loc_ascii", "C28", (MO, r"^(?P<file>.+?)(?::(?P<line>\d+))?(?::(?P<column>\d+))?$", r"^(?P<file>[^:]+?)(?::(?P<line>\d+))?(?::(?P<column>\d+))?$"))
mut("val_loc_short", "C28", (MO, r"(?::(?P<line>\d+))?(?::(?P<column>\d+))?$", r"(?::(?P<line>\d{1,4}))?(?::(?P<column>\d+))?$"))
mut("val_loc_disp", "C28", (MO, 'write!(f, "{}:{}", self.file.display(), loc)', 'write!(f, "{}", self.file.display()).and_then(|()| match loc { LocationInFile::LineAndColumn(l, _) => write!(f, ":{l}"), l => write!(f, ":{l}") })'))
same("val_loc_disp2", (MO, 'write!(f, "{}:{}", self.file.display(), loc)', 'write!(f, "{}", self.file.display())?;\n            f.write_str(":")?;\n            loc.fmt(f)'))
same("val_loc_match", (MO, '''        if let Some(loc) = &self.location_in_file {
            write!(f, "{}:{}", self.file.display(), loc)
        } else {
            write!(f, "{}", self.file.display())
        }''', '''        let file = self.file.display();
        match &self.location_in_file {
            None => write!(f, "{file}"),
            Some(LocationInFile::LineAndColumn(l, c)) => write!(f, "{file}:{l}:{c}"),
            Some(other) => write!(f, "{file}:{other}"),
        }'''))
same("val_loc_numbered", (MO, r"^(?P<file>.+?)(?::(?P<line>\d+))?(?::(?P<column>\d+))?$", r"^(.+?)(?::(\d+)(?::(\d+))?)?$"), (MO, '&caps["file"]', '&caps[1]'), (MO, 'caps.name("line")', 'caps.get(2)'), (MO, 'caps.name("column")', 'caps.get(3)'))

# ---- determinism
HASHID = (MO, IDD, IDD.replace("Clone, Debug", "Clone, Debug, Hash"))
HASHAID = (MO, IDD.replace("RequirementId", "ArtefactId"), IDD.replace("RequirementId", "ArtefactId").replace("Clone, Debug", "Clone, Debug, Hash"))
TSET = (T, "use std::collections::BTreeSet;", "use std::collections::BTreeSet;\nuse std::collections::{HashMap, HashSet};")
mut("det_derived_hashset", "C24", HASHID, TSET, (T, "    derived: BTreeSet<RequirementId>,", "    derived: HashSet<RequirementId>,"), (T, "        let mut derived = BTreeSet::new();", "        let mut derived = HashSet::new();"))
mut("det_links_hashset", "C24", HASHID, TSET, (T, "    invalid_depends_links: BTreeSet<", "    invalid_depends_links: HashSet<"), (T, "            invalid_depends_links: BTreeSet::new(),", "            invalid_depends_links: HashSet::new(),"))
same("det_lookup_hashmap", HASHID, TSET, (T, "    req_by_id: BTreeMap<", "    req_by_id: HashMap<"), (T, "            req_by_id: BTreeMap::new(),", "            req_by_id: HashMap::new(),"),
     (T, "                btree_map::Entry::Occupied(req_entry) => {", "                std::collections::hash_map::Entry::Occupied(req_entry) => {"), (T, "                btree_map::Entry::Vacant(req_entry) => {", "                std::collections::hash_map::Entry::Vacant(req_entry) => {"), (T, "use std::collections::btree_map;\n", ""))
mut("det_md_collect", "C24", (MD, '''                if set.insert(s.clone()) {
                    w.write_all(&s)?;
                }
            }''', '''                set.insert(s);
            }
            for s in &set {
                w.write_all(s)?;
            }'''))
mut("det_md_sorted_errs", "C24", (MD, '''                if set.insert(s.clone()) {
                    w.write_all(&s)?;
                }
            }''', '''                set.insert(s);
            }
            let all: Vec<_> = set.iter().collect();
            for s in all {
                w.write_all(s)?;
            }'''))
same("det_md_sorted", (MD, '''                if set.insert(s.clone()) {
                    w.write_all(&s)?;
                }
            }''', '''                set.insert(s);
            }
            let mut all: Vec<_> = set.iter().collect();
            all.sort();
            for s in all {
                w.write_all(s)?;
            }'''))
mut("det_json_time", "C24", (SE, "    version: u32,\n    trace:", "    version: u32,\n    time: u64,\n    trace:"), (SE, "            version: VERSION,\n            trace,", "            version: VERSION,\n            time: std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs()),\n            trace,"))
mut("det_json_derived", "C24", HASHAID, (MO, "pub derived: BTreeMap<ArtefactId, Vec<RequirementId>>", "pub derived: std::collections::HashMap<ArtefactId, Vec<RequirementId>>"))
mut("det_gnu_env", "C24", (G, "pub fn tracing(", "fn short() -> bool { std::env::var_os(\"CI\").is_some() }\npub fn tracing("), (G, '            writeln!(w, "{}: {} Uncovered", req.location, req.id)?;', '            if short() { writeln!(w, "{}: {} Uncovered", req.location.file.display(), req.id)?; } else { writeln!(w, "{}: {} Uncovered", req.location, req.id)?; }'))
same("det_main_timing", (M, "fn main() ", "fn timed() { let t = std::time::Instant::now(); eprintln!(\"{:?}\", t.elapsed()); }\nfn main() "))

# ---- panics
mut("pan_create", "C23", (C, '''            let file = fs::File::create(&path)
                .map_err(|e| ControllerError::Io(path.clone(), e.to_string()))?;''', '''            let file = fs::File::create(&path).expect("output file");'''))
mut("pan_glob_entry", "C23", (C, "                        Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),\n                        Ok(entry) => result.push(entry),", "                        entry => result.push(entry.unwrap()),"))
mut("pan_mode", "C23", (C, "        ArtefactParser::Rust => parse_multiple_files(config, base_dir),\n        ArtefactParser::Json | ArtefactParser::Markdown | ArtefactParser::MonoRequirement => {\n            parse_single_file(config, base_dir)\n        }", "        ArtefactParser::Rust if config.paths.len() != 1 => parse_multiple_files(config, base_dir),\n        _ => parse_single_file(config, base_dir),"))
mut("pan_title_slice", "C23", (MD, '''format!("[{}](#{} \\"{}\\")", req.id, replaced, title)''', '''format!("[{}](#{} \\"{}\\")", req.id, replaced, if title.len() > 60 { &title[..60] } else { &title[..] })'''))
mut("pan_stem", "C23", (PO, "        if let Some(stem) = path.file_stem() {\n            stem.to_string_lossy().to_string().into()", "        if let Some(stem) = path.file_stem() {\n            stem.to_str().unwrap().into()"))
mut("pan_loc_parse", "C23", (MO, '''                    .parse()
                    .map_err(|e| format!("Error parsing column {column}: {e}"))?;''', '''                    .parse()
                    .unwrap();'''))
mut("pan_readline", "C23", (PM, '''            Err(e) => {
                let err = Error::Io(context.path.to_owned(), e.to_string());
                log::info!("found problem {:#?}", &err);
                context.errors.push(err);
                evt = Event::Eof; // keep what was parsed up to the error
            }
''', '''            Err(e) if e.kind() != io::ErrorKind::InvalidData => panic!("{e}"),
            Err(e) => {
                let err = Error::Io(context.path.to_owned(), e.to_string());
                log::info!("found problem {:#?}", &err);
                context.errors.push(err);
                evt = Event::Eof; // keep what was parsed up to the error
            }
'''))
mut("pan_opt_group", "C23", (PO, "ref_link.get(2).map(|m| m.as_str().to_owned())", "Some(ref_link[2].to_owned())"))
mut("pan_keep_relation", "C23", (C, "            unknown.is_none()\n", "            true\n"))
mut("pan_keep_lower", "C23", (C, "            let unknown = std::iter::once(&rel.upper)\n                .chain(&rel.lower)\n                .find(|id| !is_root.contains_key(id));", "            let unknown = std::iter::once(&rel.upper)\n                .chain(rel.lower.first())\n                .find(|id| !is_root.contains_key(id));"))
mut("pan_dup_links", "C23", (T, '''        for req in artefact.requirements.values() {
            match self.req_by_id.entry(req.id.clone()) {''', '''        for req in artefact.requirements.values() {
            for cov in &req.covers {
                self.invalid_covers_links
                    .insert((cov.id.clone(), req.id.clone()));
            }
            match self.req_by_id.entry(req.id.clone()) {'''), (T, '''                    for cov in &req.covers {
                        requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
                        self.invalid_covers_links
                            .insert((cov.id.clone(), req.id.clone()));
                    }
''', ""))
mut("pan_gnu_lookup", "C23", (G, "            Error::CoversUnknownRequirement(req, cover, location) => {\n", "            Error::CoversUnknownRequirement(req, cover, location) => {\n                let _ = req.covers.iter().find(|c| c.id == *cover && c.location == req.location).unwrap();\n"))
mut("pan_aggr_empty", "C23", (A, "            for req_id in traced_graph.artefacts[&rel.relation.upper]\n", "            if rel.covered.len() > 1 { for req_id in traced_graph.artefacts[&rel.relation.upper]\n"), (A, '''                    .depends
                    .insert(&rel.relation, vec![]);
            }
''', '''                    .depends
                    .insert(&rel.relation, vec![]);
            } }
'''))
mut("pan_percent", "C23", (MD, '    let traced_graph = aggregated_graph.traced_graph;\n', '    let traced_graph = aggregated_graph.traced_graph;\n    for rel in &traced_graph.traced_relations {\n        let n = traced_graph.artefacts[&rel.relation.upper].requirements.len();\n        log::info!("{}%", 100 * (n - rel.uncovered.len()) / n);\n    }\n'))
mut("pan_column", "C23", (MD, "            format!(\"[{file}:{line}:{column}](../{file}?plain=1#L{line})\")", "            let column = column - 1;\n            format!(\"[{file}:{line}:{column}](../{file}?plain=1#L{line})\")"))
mut("pan_parse_file", "C23", (PR, '''            Err(e) => {
                let pos = e.span().start();''', '''            Err(e) => {
                let first = source.lines().nth(e.span().start().line - 1).unwrap();
                log::info!("{first}");
                let pos = e.span().start();'''))
mut("pan_parent", "C23", (C, "            if let Some(p) = &path.parent() {\n", "            let p = &path.parent().unwrap();\n            {\n"))
mut("pan_canon", "C23", (C, "            base_dir: base_dir.to_owned(),\n", "            base_dir: base_dir.canonicalize().unwrap(),\n"))
mut("pan_first_cov", "C23", (G, "        for rel in &traced_graph.traced_relations {\n", "        for rel in &traced_graph.traced_relations {\n            log::info!(\"{}\", rel.covered[0].upper);\n") if False else (G, "    for rel in &traced_graph.traced_relations {\n", "    for rel in &traced_graph.traced_relations {\n        log::info!(\"{}\", rel.covered[0].upper);\n"))
mut("pan_println", "C23", (M, "        Ok(JobSuccess::Success) => 0,", "        Ok(JobSuccess::Success) => { println!(\"ok\"); 0 }"))
mut("pan_config", "C23", (M, '''        fs::read(&opt.config_file)
            .map_err(|e| format!("{}: {}", &opt.config_file.display(), e))?
            .as_slice(),''', '''        fs::read(&opt.config_file)
            .expect("config")
            .as_slice(),'''))
mut("pan_job", "C23", (C, '''            if let Some(job) = self.find_job(j) {
                jobs.push(job);
            } else {
                let err = ControllerError::UnknownJob(j.clone());
                log::info!("found problem {:#?}", &err);
                return Err(err);
            }''', '''            jobs.push(&self.jobs[j]);'''))
mut("pan_ref_find", "C23", (T, '''                        is_covered = true;
                        if let Some(title) = depends.title.as_ref() {''', '''                        is_covered = true;
                        let _ = lower_requirement.covers.iter().find(|c| c.id == upper_requirement.id).expect("backlink");
                        if let Some(title) = depends.title.as_ref() {'''))
mut("pan_md_attr", "C23", (PM, "    } else {\n        panic!();\n    }", "    } else if vec.is_empty() {\n        panic!();\n    }"), (PM, "    if attr == ATTR_COVERS {\n        context.req_under_construction.as_mut().unwrap().covers = vec;", "    if attr == ATTR_COVERS {\n        let first = vec.first().unwrap();\n        log::info!(\"{}\", first.id);\n        context.req_under_construction.as_mut().unwrap().covers = vec;"))
same("pan_ok_get", (G, "let req = &traced_graph.artefacts[&rel.relation.upper].requirements[req];", "let req = traced_graph.artefacts.get(&rel.relation.upper).and_then(|a| a.requirements.get(req)).expect(\"uncovered requirements exist\");"))
same("pan_ok_root", (C, "unwrap_or(is_root[&ac.id])", "unwrap_or_else(|| *is_root.get(&ac.id).unwrap())"))
same("pan_ok_first", (G, "    for rel in &traced_graph.traced_relations {\n", "    for rel in &traced_graph.traced_relations {\n        if !rel.covered.is_empty() {\n            log::info!(\"{}\", rel.covered[0].upper);\n        }\n"))
same("pan_ok_is_some", (C, "        if let Some(err) = &self.config_error {\n            log::info!(\"found problem {:#?}\", &err);\n            return Err(err.clone());", "        if self.config_error.is_some() {\n            let err = self.config_error.as_ref().unwrap();\n            log::info!(\"found problem {:#?}\", &err);\n            return Err(err.clone());"))
same("pan_ok_find_expect", (T, '''            let reference = req.depends.iter().find(|r| &r.id == lower_id);

            if reference.is_none() {
                panic!("");
            }

            let location = reference.unwrap().location.clone();''', '''            let location = match req.depends.iter().position(|r| r.id == *lower_id) {
                Some(i) => req.depends[i].location.clone(),
                None => unreachable!("recorded link"),
            };'''))
same("pan_ok_lower", (C, "                is_root.insert(lower, false);", "                *is_root.get_mut(lower).expect(\"unknown artefacts were removed\") = false;"))
same("pan_ok_let_else", (T, '''                    let lower_artefact = self
                        .traced_artefacts
                        .get_mut(lower)
                        .expect("artefacts of relations exist");
''', '''                    let Some(lower_artefact) = self.traced_artefacts.get_mut(lower) else {
                        panic!("relation with unknown artefact {lower}")
                    };
'''))
same("pan_ok_caps_unwrap", (PM, "    context.level = req_line[1].len();\n    let id = req_line[2].into();", "    context.level = req_line.get(1).unwrap().as_str().len();\n    let id = req_line.get(2).expect(\"an id\").as_str().into();"))
RETAIN = '''        relations.retain(|rel| {
            let unknown = std::iter::once(&rel.upper)
                .chain(&rel.lower)
                .find(|id| !is_root.contains_key(id));
            if let Some(id) = unknown {
                config_error = Some(ControllerError::Config(format!(
                    "Relation {rel} references unknown artefact {id}"
                )));
            }
            unknown.is_none()
        });
'''
RELS = "        let mut relations: Vec<Relation> = config.relations;\n"
UNK = 'config_error = Some(ControllerError::Config(format!("Relation {rel} references unknown artefact {id}")));'
same("rel_ok_loop", (C, RETAIN, '''        relations.retain(|rel| {
            for id in std::iter::once(&rel.upper).chain(rel.lower.iter()) {
                if !is_root.contains_key(id) {
                    %s
                    return false;
                }
            }
            true
        });
''' % UNK))
same("rel_ok_two", (C, RETAIN, '''        relations.retain(|rel| {
            let id = &rel.upper;
            if !is_root.contains_key(id) {
                %s
                return false;
            }
            match rel.lower.iter().find(|id| !is_root.contains_key(*id)) {
                None => true,
                Some(id) => {
                    %s
                    false
                }
            }
        });
''' % (UNK, UNK)))
same("rel_ok_filter", (C, RELS, ""), (C, RETAIN, '''        let relations: Vec<Relation> = config.relations.into_iter().filter(|rel| {
            let unknown = std::iter::once(&rel.upper)
                .chain(&rel.lower)
                .find(|id| !is_root.contains_key(id));
            if let Some(id) = unknown {
                %s
            }
            unknown.is_none()
        }).collect();
''' % UNK))
same("rel_ok_push", (C, RELS, "        let mut relations: Vec<Relation> = Vec::new();\n"), (C, RETAIN, '''        for rel in config.relations {
            let mut ok = true;
            for id in std::iter::once(&rel.upper).chain(&rel.lower) {
                if !is_root.contains_key(id) {
                    %s
                    ok = false;
                    break;
                }
            }
            if ok {
                relations.push(rel);
            }
        }
''' % UNK))
same("rel_ok_continue", (C, RELS, "        let mut relations: Vec<Relation> = Vec::new();\n"), (C, RETAIN, '''        'next: for rel in config.relations {
            for id in std::iter::once(&rel.upper).chain(&rel.lower) {
                if !is_root.contains_key(id) {
                    %s
                    continue 'next;
                }
            }
            relations.push(rel);
        }
''' % UNK))
mut("rel_or", "C23", (C, "            unknown.is_none()\n", "            unknown.is_none() || is_root.contains_key(&rel.upper)\n"))

# ---- the number of paths of a single-file artefact
mut("ld_extra_paths", "C18", (C, "    if config.paths.len() != 1 {", "    if config.paths.is_empty() {"))
mut("ld_two_paths", "C18", (C, "    if config.paths.len() != 1 {", "    if config.paths.is_empty() || config.paths.len() > 2 {"))
mut("ld_one_extra_mono", "C18", (C, "    if config.paths.len() != 1 {", "    if config.paths.len() != 1 && !matches!(config.parser, ArtefactParser::MonoRequirement) {"), (C, "    let path = base_dir.join(&config.paths[0]);", "    let path = match config.paths.last() {\n        Some(p) => base_dir.join(p),\n        None => base_dir.to_path_buf(),\n    };"))
_SINGLE = '''        let err = Error::Config(format!(
            "Expected only 1 file for artefact {} with parser {:?}, got {:?}",
            config.id, config.parser, config.paths,
        ));
        log::info!("found problem {err:#?}");
        return (vec![], vec![], vec![(err)]);
    }
'''
same("ld_one_slice", (C, "    if config.paths.len() != 1 {\n" + _SINGLE + "    let path = base_dir.join(&config.paths[0]);\n", "    let [path] = config.paths.as_slice() else {\n" + _SINGLE.replace("    }\n", "    };\n") + "    let path = base_dir.join(path);\n"))
same("ld_one_first", (C, "    if config.paths.len() != 1 {\n", "    let single = config.paths.len() == 1;\n    if !single {\n"), (C, "    let path = base_dir.join(&config.paths[0]);\n", "    let path = base_dir.join(config.paths.first().unwrap());\n"))
same("ld_one_next", (C, "    if config.paths.len() != 1 {\n" + _SINGLE + "    let path = base_dir.join(&config.paths[0]);\n", "    let mut it = config.paths.iter();\n    let (Some(path), None) = (it.next(), it.next()) else {\n" + _SINGLE.replace("    }\n", "    };\n") + "    let path = base_dir.join(path);\n"))
same("ld_one_match", (C, "    if config.paths.len() != 1 {\n" + _SINGLE + "    let path = base_dir.join(&config.paths[0]);\n", "    let path = match config.paths.len() {\n        1 => base_dir.join(&config.paths[0]),\n        _ => {\n" + _SINGLE.replace("    }\n", "    }\n    };\n")))

# ---- short writes
mut("tg_short_write", "C05", (TG, "        w.write_all(l.as_bytes())?;", "        let _n = w.write(l.as_bytes())?;"))
mut("tg_short_zero", "C05", (TG, "        w.write_all(l.as_bytes())?;", "        if w.write(l.as_bytes())? == 0 {\n            return Err(io::ErrorKind::WriteZero.into());\n        }"))
same("tg_write_checked", (TG, "        w.write_all(l.as_bytes())?;", "        if w.write(l.as_bytes())? != l.len() {\n            return Err(io::ErrorKind::WriteZero.into());\n        }"))
same("tg_write_fmt", (TG, "        w.write_all(l.as_bytes())?;", "        write!(w, \"{}\", l)?;"))
mut("gnu_note_loc", "C14", (G, "                    lower.location,\n", "                    lower.id,\n"))
mut("gnu_note_loc2", "C14", (G, "                    upper.location,\n", "                    location,\n"))
mut("gnu_fmt_order", "C14", (G, 'writeln!(w, "{loc}: {err}")?;', 'writeln!(w, "{err}: {loc}")?;'))
mut("gnu_io_order", "C14", (G, 'writeln!(w, "{}: IO Error: {}", path.display(), err,)?;', 'writeln!(w, "IO Error: {}: {}", path.display(), err,)?;'))

# ---- order in which requirements are read
mut("ord_rev_reqs", "C13", (C, "    for req in requirement_vec {", "    for req in requirement_vec.into_iter().rev() {"))
mut("ord_md_front", "C13", (PM, "        context.requirements.push(Rc::from(box_req));", "        context.requirements.insert(0, Rc::from(box_req));"))
mut("ord_md_reverse", "C13", (PM, "    (context.requirements, context.errors)", "    context.requirements.reverse();\n    (context.requirements, context.errors)"))
mut("ord_md_sort", "C13", (PM, "    (context.requirements, context.errors)", "    context.requirements.sort_by(|a, b| a.title.cmp(&b.title));\n    (context.requirements, context.errors)"))
mut("ord_load_sort", "C13", (C, "    for req in requirement_vec {", "    let mut requirement_vec = requirement_vec;\n    requirement_vec.sort_by(|a, b| b.covers.len().cmp(&a.covers.len()));\n    for req in requirement_vec {"))
mut("rs_stack_front", "C21", (PR if "rust" in PR else PO, "        self.locations\n            .push(location_from_span(self.path, &node.sig.ident.span()));\n        visit::visit_trait_item_method", "        self.locations\n            .insert(0, location_from_span(self.path, &node.sig.ident.span()));\n        visit::visit_trait_item_method"))
mut("rs_scope_front", "C21", (PR if "rust" in PR else PO, "        self.scope.push(node.sig.ident.to_string());\n        self.locations\n            .push(location_from_span(self.path, &node.sig.ident.span()));\n        visit::visit_trait_item_method", "        self.scope.insert(0, node.sig.ident.to_string());\n        self.locations\n            .push(location_from_span(self.path, &node.sig.ident.span()));\n        visit::visit_trait_item_method"))
mut("tr_dangling_wrong_ref", "C11 C20", (T, ".find(|r| &r.id == upper_id)", ".find(|r| &r.id != upper_id)"))
mut("tr_dangling_wrong_ref2", "C11 C20", (T, "req.depends.iter().find(|r| &r.id == lower_id)", "req.depends.iter().find(|r| &r.id >= lower_id)"))
same("tr_dangling_filter", (T, ".find(|r| &r.id == upper_id)", ".filter(|r| &r.id == upper_id)\n                .next()"))
same("tr_dangling_all", (T, '''            let reference = req.depends.iter().find(|r| &r.id == lower_id);

            if reference.is_none() {
                panic!("");
            }

            let location = reference.unwrap().location.clone();
''', '''            let mut location = None;
            for r in &req.depends {
                if &r.id == lower_id {
                    location = Some(r.location.clone());
                    break;
                }
            }
            let location = location.expect("the link was recorded");
'''))
same("tr_dangling_position", (T, '''            let reference = req.depends.iter().find(|r| &r.id == lower_id);

            if reference.is_none() {
                panic!("");
            }

            let location = reference.unwrap().location.clone();
''', '''            let i = req.depends.iter().position(|r| &r.id == lower_id).unwrap();
            let location = req.depends[i].location.clone();
'''))
mut("ml_no_depends_heading", "C17 C15", (MD, '        writeln!(w, "\\nDepends:")?;\n', ''))
mut("ml_wrong_heading", "C17 C15", (MD, '        writeln!(w, "\\nDepends:")?;\n', '        writeln!(w, "\\nCovers:")?;\n'))

# ---- every run ends
mut("end_mono_err", "C31", (PO, "                errors.push(err);\n                break;\n", "                errors.push(err);\n"))
mut("end_mono_err2", "C31", (PO, "                errors.push(err);\n                break;\n", "                if !errors.contains(&err) {\n                    errors.push(err);\n                }\n                continue;\n"))
mut("end_md_err", "C31", (PM, "                evt = Event::Eof; // keep what was parsed up to the error", "                evt = Event::Empty;"))
same("end_md_while", (PM, """        if let Event::Eof = evt {
            break;
        }
    }
""", """        if matches!(evt, Event::Eof) {
            return (context.requirements, context.errors);
        }
    }
"""), (PM, "    (context.requirements, context.errors)\n}", "}"))
mut("end_loop", "C31", (C, "    for path in paths {\n        let glob", "    let mut n = 0;\n    while n < paths.len() {\n        let path = &paths[n];\n        if path.is_empty() { continue; }\n        n += 1;\n        let glob"))
same("end_loop_ok", (C, "    for path in paths {\n        let glob", "    let mut n = 0;\n    while n < paths.len() {\n        let path = &paths[n];\n        n += 1;\n        let glob"))
mut("end_worklist", "C31", (C, "    pub fn run_default_jobs", "    fn below(&self, a: &ArtefactId) -> usize {\n        let mut todo = vec![a.clone()];\n        let mut n = 0;\n        while let Some(x) = todo.pop() {\n            n += 1;\n            for r in &self.graph.relations {\n                if r.upper == x { todo.extend(r.lower.iter().cloned()); }\n            }\n        }\n        n\n    }\n\n    pub fn run_default_jobs"))

# ------------------------------------------------------------ refactorings of tracing, loading, jobs and main
same("rf_tr_helper_title", (T, """                        if let Some(title) = depends.title.as_ref() {
                            if Some(title) != lower_requirement.title.as_ref() {
                                self.errors.push(DependWithWrongTitle {
                                    upper: Rc::clone(upper_requirement),
                                    lower: Rc::clone(lower_requirement),
                                    wrong_title: title.into(),
                                    location: depends.location.clone(),
                                });
                            }
                        } else {
                            if lower_artefact.artefact.reference_with_title {
                                self.errors.push(Error::ReferencedWithoutTitle {
                                    referenced: Rc::clone(lower_requirement),
                                    location: depends.location.clone(),
                                });
                            }
                        }
""", """                        match &depends.title {
                            Some(title) if lower_requirement.title.as_deref() != Some(title.as_str()) => {
                                self.errors.push(DependWithWrongTitle {
                                    upper: Rc::clone(upper_requirement),
                                    lower: Rc::clone(lower_requirement),
                                    wrong_title: title.clone(),
                                    location: depends.location.clone(),
                                });
                            }
                            Some(_) => {}
                            None if lower_artefact.artefact.reference_with_title => {
                                self.errors.push(Error::ReferencedWithoutTitle {
                                    referenced: Rc::clone(lower_requirement),
                                    location: depends.location.clone(),
                                });
                            }
                            None => {}
                        }
"""))
same("rf_tr_title_fn", (T, """                        if let Some(title) = covers.title.as_ref() {
                            if Some(title) != upper_requirement.title.as_ref() {
                                self.errors.push(CoveredWithWrongTitle {
                                    upper: Rc::clone(upper_requirement),
                                    lower: Rc::clone(lower_requirement),
                                    wrong_title: title.into(),
                                    location: covers.location.clone(),
                                });
                            }
                        } else {
                            if upper_artefact.reference_with_title {
                                self.errors.push(Error::ReferencedWithoutTitle {
                                    referenced: Rc::clone(upper_requirement),
                                    location: covers.location.clone(),
                                });
                            }
                        }
""", """                        if let Some(e) = title_error(upper_requirement, lower_requirement, covers, upper_artefact.reference_with_title) {
                            self.errors.push(e);
                        }
"""), (T, "pub fn trace(graph", """fn title_error(upper: &Rc<Requirement>, lower: &Rc<Requirement>, covers: &Reference, with_title: bool) -> Option<Error> {
    let Some(title) = covers.title.as_ref() else {
        return with_title.then(|| Error::ReferencedWithoutTitle {
            referenced: Rc::clone(upper),
            location: covers.location.clone(),
        });
    };
    if upper.title.as_ref() == Some(title) {
        return None;
    }
    Some(CoveredWithWrongTitle {
        upper: Rc::clone(upper),
        lower: Rc::clone(lower),
        wrong_title: title.to_string(),
        location: covers.location.clone(),
    })
}

pub fn trace(graph"""))
same("rf_tr_uncovered_after", (T, """            if !is_covered {
                requirement_covered!(DSG_TRACE_UNCOVERED);
                uncovered.push(upper_requirement.id.clone());
            }
            any_req_coverd = any_req_coverd || is_covered;
""", """            if is_covered {
                any_req_coverd = true;
            } else {
                uncovered.push(upper_requirement.id.clone());
            }
"""))
same("rf_tr_any_from_covered", (T, "        if !any_req_coverd {", "        let _ = any_req_coverd;\n        if covered.is_empty() {"))
same("rf_tr_entry_or", (T, """                        match requirements_that_cover.entry(cov.id.clone()) {
                            std::collections::btree_map::Entry::Vacant(cov_entry) => {
                                cov_entry.insert(vec![(Rc::clone(req), cov.clone())]);
                            }
                            std::collections::btree_map::Entry::Occupied(mut cov_entry) => {
                                cov_entry.get_mut().push((Rc::clone(req), cov.clone()))
                            }
                        }
""", """                        requirements_that_cover
                            .entry(cov.id.clone())
                            .or_insert_with(Vec::new)
                            .push((Rc::clone(req), cov.clone()));
"""))
same("rf_tr_dup_get", (T, "            match self.req_by_id.entry(req.id.clone()) {\n                btree_map::Entry::Occupied(req_entry) => {\n                    requirement_covered!(DSG_TRACE_DETECT_DUPLICATE);\n                    let (_old_art, old_req) = req_entry.get();\n                    let err = DuplicateRequirement(Rc::clone(old_req), Rc::clone(req));\n                    self.errors.push(err);\n                }\n                btree_map::Entry::Vacant(req_entry) => {\n                    req_entry.insert((artefact.id.clone(), Rc::clone(req)));\n",
  "            if let Some((_, old_req)) = self.req_by_id.get(&req.id) {\n                self.errors.push(DuplicateRequirement(Rc::clone(old_req), Rc::clone(req)));\n                continue;\n            }\n            {\n                {\n                    self.req_by_id.insert(req.id.clone(), (artefact.id.clone(), Rc::clone(req)));\n"))
same("rf_tr_lower_map", (T, """                    if let Some(lower_requirement) =
                        lower_artefact.requirements_by_id.get(&depends.id)
                    {
""", """                    if let Some((_, lower_requirement)) =
                        lower_artefact.requirements_by_id.iter().find(|(id, _)| **id == depends.id)
                    {
"""))
same("rf_tr_index_lower", (T, """            for lower_id in &relation.lower {
                let lower_artefact""", """            for n in 0..relation.lower.len() {
                let lower_id = &relation.lower[n];
                let lower_artefact"""))
same("rf_tr_while_lower", (T, """            for lower_id in &relation.lower {
                let lower_artefact""", """            let mut n = 0;
            while n < relation.lower.len() {
                let lower_id = &relation.lower[n];
                n += 1;
                let lower_artefact"""))
same("rf_tr_validate_map", (T, """        for cov in &self.invalid_covers_links {
            requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
            let (upper_id, lower_id) = cov;

            let (_art_id, req) = &self.req_by_id[lower_id];

            let reference: &Reference = req
                .covers
                .iter()
                .find(|r| &r.id == upper_id)
                .expect("invalid link exists");
            let location = reference.location.clone();

            let err = Error::CoversUnknownRequirement(Rc::clone(req), upper_id.clone(), location);
            log::info!("found problem {err:#?}");
            self.errors.push(err);
        }
""", """        let req_by_id = &self.req_by_id;
        self.errors.extend(self.invalid_covers_links.iter().map(|(upper_id, lower_id)| {
            let req = &req_by_id[lower_id].1;
            let location = req
                .covers
                .iter()
                .find(|r| r.id == *upper_id)
                .map(|r| r.location.clone())
                .expect("invalid link exists");
            Error::CoversUnknownRequirement(Rc::clone(req), upper_id.clone(), location)
        }));
"""))
same("rf_tr_new_fold", (T, """        for a in graph.artefacts.values() {
            tracer.add_artefact(a);
        }
        for rel in &graph.relations {
            tracer.trace_relation(rel);
        }
""", """        graph.artefacts.iter().for_each(|(_, a)| tracer.add_artefact(a));
        graph.relations.iter().for_each(|rel| tracer.trace_relation(rel));
"""))
same("rf_tr_derived_filter", (T, """                    if !artefact.ignore_derived_requirements {
                        requirement_covered!(DSG_TRACE_DERIVED);
                        derived.insert(req.id.clone());
                    }
""", ""), (T, "        let ta = TracedArtefact {", "        if !artefact.ignore_derived_requirements {\n            derived.extend(requirements_by_id.keys().cloned());\n        }\n        let ta = TracedArtefact {"))
same("rf_tr_links_chain", (T, """                    for cov in &req.covers {
                        requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
                        self.invalid_covers_links
                            .insert((cov.id.clone(), req.id.clone()));
                    }
""", """                    self.invalid_covers_links
                        .extend(req.covers.iter().map(|cov| (cov.id.clone(), req.id.clone())));
"""))
same("rf_tr_mark_fn", (T, """                        self.invalid_depends_links
                            .remove(&(upper_requirement.id.clone(), lower_requirement.id.clone()));
""", """                        let link = (upper_requirement.id.clone(), lower_requirement.id.clone());
                        if self.invalid_depends_links.contains(&link) {
                            self.invalid_depends_links.remove(&link);
                        }
"""))
same("rf_tr_order", (T, """                        requirement_covered!(DSG_TRACE_DERIVED);
                        lower_artefact.derived.remove(&lower_requirement.id);
                        covered.push(Coverage {
                            upper: upper_requirement.id.clone(),
                            lower: lower_requirement.id.clone(),
                            location: covers.location.clone(),
                            direction: CoverageDirection::Upwards,
                        });
""", """                        let coverage = Coverage {
                            direction: CoverageDirection::Upwards,
                            location: covers.location.clone(),
                            lower: lower_requirement.id.clone(),
                            upper: upper_requirement.id.clone(),
                        };
                        covered.push(coverage);
                        lower_artefact.derived.remove(&lower_requirement.id);
"""))
same("rf_tr_data", (T, """        let (artefacts, derived) = artefacts
            .into_iter()
            .map(|(id, ta)| {
                (
                    (id.clone(), ta.artefact),
                    (id, ta.derived.into_iter().collect()),
                )
            })
            .unzip();
""", """        let mut derived = BTreeMap::new();
        let mut arts = BTreeMap::new();
        for (id, ta) in artefacts {
            derived.insert(id.clone(), ta.derived.into_iter().collect());
            arts.insert(id, ta.artefact);
        }
        let artefacts = arts;
"""))
same("rf_ld_glob_pattern", (C, """        let glob = if Path::new(path).is_relative() {
            glob::glob(&format!("{}/{}", base_dir.display(), path))
        } else {
            glob::glob(path)
        };
""", """        let pattern = if Path::new(path).is_absolute() {
            path.clone()
        } else {
            format!("{}/{path}", base_dir.display())
        };
        let glob = glob::glob(&pattern);
"""))
same("rf_ld_glob_len", (C, """                let mut found = false;
                for entry in glob {
                    found = true;
                    match entry {
                        Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
                        Ok(entry) => result.push(entry),
                    }
                }
                if !found {""", """                let mut n = 0;
                for entry in glob {
                    n += 1;
                    match entry {
                        Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
                        Ok(entry) => result.push(entry),
                    }
                }
                if n == 0 {"""))
same("rf_ld_glob_collect", (C, """                let mut found = false;
                for entry in glob {
                    found = true;
                    match entry {
                        Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
                        Ok(entry) => result.push(entry),
                    }
                }
                if !found {""", """                let entries: Vec<_> = glob.collect();
                let none = entries.is_empty();
                for entry in entries {
                    match entry {
                        Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
                        Ok(entry) => result.push(entry),
                    }
                }
                if none {"""))
same("rf_ld_glob_peek", (C, """                let mut found = false;
                for entry in glob {
                    found = true;
                    match entry {""", """                let mut glob = glob.peekable();
                let found = glob.peek().is_some();
                for entry in glob {
                    match entry {"""))
same("rf_ld_open_fn", (C, """        match fs::File::open(path) {
            Err(err) => {
                let err = Error::Io(path.into(), err.to_string());
                log::info!("found problem {:#?}", &err);
                errors.push(err)
            }
            Ok(file) => {
                let mut r = io::BufReader::new(file);

                let (r, e) = match config.parser {
                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
                    _ => panic!("unexpected {:?}", config.parser),
                };
                requirements.extend(r);
                errors.extend(e);
            }
        }
""", """        match open_source(path) {
            Err(err) => errors.push(err),
            Ok(mut r) => {
                let (r, mut e) = match config.parser {
                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
                    _ => panic!("unexpected {:?}", config.parser),
                };
                requirements.extend(r);
                errors.append(&mut e);
            }
        }
"""), (C, "fn parse_multiple_files(", """fn open_source(path: &Path) -> Result<io::BufReader<fs::File>, Error> {
    fs::File::open(path)
        .map(io::BufReader::new)
        .map_err(|e| Error::Io(path.to_path_buf(), e.to_string()))
}

fn parse_multiple_files("""))
same("rf_ld_let_else", (C, """    match fs::File::open(&path) {
        Err(err) => {
            let err = Error::Io(path.clone(), err.to_string());
            log::info!("found problem {:#?}", &err);
            (vec![path], vec![], vec![err])
        }
        Ok(file) => {
            let mut r = io::BufReader::new(file);
""", """    let file = match fs::File::open(&path) {
        Ok(file) => file,
        Err(err) => {
            let err = Error::Io(path.clone(), err.to_string());
            return (vec![path], vec![], vec![err]);
        }
    };
    {
        {
            let mut r = io::BufReader::new(file);
"""))
same("rf_ld_retdup", (C, """        match requirements.entry(req.id.clone()) {
            btree_map::Entry::Occupied(e) => {
                requirement_covered!(DSG_CTRL_DETECT_DUPLICATE_REQS);
                let err = Error::DuplicateRequirement(Rc::clone(e.get()), req);
                log::info!("found problem {:#?}", &err);
                errors.push(err);
            }
            btree_map::Entry::Vacant(e) => {
                e.insert(req);
            }
        }
""", """        let id = req.id.clone();
        if let Some(first) = requirements.get(&id) {
            errors.push(Error::DuplicateRequirement(Rc::clone(first), req));
        } else {
            requirements.insert(id, req);
        }
"""))
same("rf_ld_title_loop", (C, """                errors.extend(
                    requirements
                        .values()
                        .filter(|r| r.title.is_none())
                        .map(|r| Error::RequirementWithoutTitle(Rc::clone(r))),
                );
""", """                for r in requirements.values() {
                    if r.title.is_some() {
                        continue;
                    }
                    errors.push(Error::RequirementWithoutTitle(r.clone()));
                }
"""))
same("rf_ct_load_fn", (C, """            let (files, requirements, mut errors) = parse_from_config(&ac, &base_dir);

            if reference_with_title {""", """            let (files, requirements, mut errors) = Self::load(ac, base_dir);

            if reference_with_title {"""), (C, "    pub fn find_job", """    fn load(ac: &ArtefactConfig, base_dir: &Path) -> (Vec<PathBuf>, BTreeMap<RequirementId, Rc<Requirement>>, Vec<Error>) {
        parse_from_config(ac, base_dir)
    }

    pub fn find_job"""))
same("rf_ct_entry", (C, """            if artefacts.contains_key(&ac.id) {
                config_error = Some(ControllerError::Config(format!(
                    "Artefact {} is configured twice",
                    ac.id
                )));
                continue;
            }
""", """            let twice = artefacts.get(&ac.id).is_some();
            if twice {
                config_error = Some(ControllerError::Config(format!("Artefact {} is configured twice", &ac.id)));
                continue;
            }
"""))
same("rf_ct_root_set", (C, """            let ignore_derived_requirements =
                ac.ignore_derived_requirements.unwrap_or(is_root[&ac.id]);
""", """            let ignore_derived_requirements = match ac.ignore_derived_requirements {
                Some(x) => x,
                None => is_root[&ac.id],
            };
"""))
same("rf_ct_root_any", (C, """            let ignore_derived_requirements =
                ac.ignore_derived_requirements.unwrap_or(is_root[&ac.id]);
""", """            let ignore_derived_requirements = ac
                .ignore_derived_requirements
                .unwrap_or_else(|| !relations.iter().any(|rel| rel.lower.contains(&ac.id)));
"""))
same("rf_jb_names_iter", (C, """        let mut jobs = Vec::new();
        for j in job_names {
            if let Some(job) = self.find_job(j) {
                jobs.push(job);
            } else {
                let err = ControllerError::UnknownJob(j.clone());
                log::info!("found problem {:#?}", &err);
                return Err(err);
            }
        }
        self.run_jobs""", """        let jobs = job_names
            .iter()
            .map(|j| self.find_job(j).ok_or_else(|| ControllerError::UnknownJob(j.clone())))
            .collect::<Result<Vec<_>, _>>()?;
        self.run_jobs"""))
same("rf_jb_index", (C, """        for (job, job_name) in jobs.iter().zip(job_names.iter()) {
            match self.run""", """        for n in 0..jobs.len() {
            let job = jobs[n];
            let job_name = &job_names[n];
            match self.run"""))
same("rf_jb_fold", (C, """            match self.run(job, job_name)? {
                JobSuccess::Success => {}
                JobSuccess::ErrorsDetected => {
                    if job.set_return_code.unwrap_or(true) {
                        requirement_covered!(DSG_CTRL_RETURN_CODE);
                        success = JobSuccess::ErrorsDetected;
                    }
                }
            }
""", """            let result = self.run(job, job_name)?;
            let counts = job.set_return_code != Some(false);
            if counts && matches!(result, JobSuccess::ErrorsDetected) {
                success = result;
            }
"""))
same("rf_jb_bools", (C, """                if !tg.errors.is_empty() {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Tracing Errors");
                }
                if tg.artefacts.values().any(|art| !art.errors.is_empty()) {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Artefact Parsing Errors");
                }
                if tg
                    .traced_relations
                    .iter()
                    .any(|rel| !rel.uncovered.is_empty())
                {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: uncovered relations");
                }

                if tg.derived.values().any(|a| !a.is_empty()) {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!(
                        "Job did not succeed because: derived Requirements: {:#?}",
                        tg.derived
                    );
                }
""", """                let clean = tg.errors.is_empty()
                    && tg.artefacts.values().all(|art| art.errors.is_empty())
                    && tg.traced_relations.iter().all(|rel| rel.uncovered.is_empty())
                    && tg.derived.values().all(|a| a.is_empty());
                if !clean {
                    success = JobSuccess::ErrorsDetected;
                }
"""))
same("rf_jb_problem_fn", (C, """                if !tg.errors.is_empty() {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Tracing Errors");
                }
                if tg.artefacts.values().any(|art| !art.errors.is_empty()) {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Artefact Parsing Errors");
                }
""", """                if Self::has_problems(tg) {
                    success = JobSuccess::ErrorsDetected;
                }
"""), (C, "    pub fn find_job", """    fn has_problems(tg: &TracedGraph) -> bool {
        if tg.errors.len() > 0 {
            return true;
        }
        for art in tg.artefacts.values() {
            if art.errors.len() > 0 {
                return true;
            }
        }
        false
    }

    pub fn find_job"""))
same("rf_jb_count", (C, "                if tg.derived.values().any(|a| !a.is_empty()) {", "                let open: usize = tg.derived.values().map(|a| a.len()).sum();\n                if open > 0 {"))
same("rf_jb_path_cow", (C, """            let path = if job.file.is_absolute() {
                &job.file
            } else {
                &self.base_dir.join(&job.file)
            };
""", """            let path = &self.base_dir.join(&job.file);
"""))
same("rf_jb_push", (C, """            let path = if job.file.is_absolute() {
                &job.file
            } else {
                &self.base_dir.join(&job.file)
            };
""", """            let mut target = self.base_dir.clone();
            target.push(&job.file);
            let path = &target;
"""))
same("rf_jb_open", (C, """            let file = fs::File::create(&path)
""", """            let file = fs::OpenOptions::new()
                .write(true)
                .create(true)
                .truncate(true)
                .open(&path)
"""))
same("rf_jb_target_fn", (C, """        let stdout = io::stdout();
        let mut out: Box<dyn io::Write>;

        if job.file.as_os_str() == "-" {
            out = Box::new(stdout.lock());
            log::info!("writing {job_name:?} to stdout");
        } else {""", """        let stdout = io::stdout();
        let mut out: Box<dyn io::Write>;

        let to_stdout = job.file == Path::new("-");
        if to_stdout {
            out = Box::new(stdout.lock());
            log::info!("writing {job_name:?} to stdout");
        } else {"""))
same("rf_jb_write_match", (C, """        write_res
            .and_then(|()| io::Write::flush(&mut out))
            .map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
""", """        if let Err(e) = write_res {
            return Err(ControllerError::Io(job.file.clone(), e.to_string()));
        }
        if let Err(e) = out.flush() {
            return Err(ControllerError::Io(job.file.clone(), e.to_string()));
        }
"""), (C, "use std::io;", "use std::io;\nuse std::io::Write as _;"))
same("rf_jb_default_early", (C, """        if !self.default_jobs.is_empty() {
            self.run_jobs_by_name(&self.default_jobs)
        } else {
            let err = ControllerError::Config("no default_jobs configured".into());
            log::info!("found problem {:#?}", &err);
            Err(err)
        }
""", """        if self.default_jobs.len() == 0 {
            return Err(ControllerError::Config("no default_jobs configured".to_string()));
        }
        self.run_jobs_by_name(&self.default_jobs[..])
"""))
same("rf_mn_match", (M, """    let res = if opt.jobs.is_empty() {
        controller.run_default_jobs()
    } else {
        requirement_covered!(DSG_JOBS: "Jobs encode requested behavior");
        controller.run_jobs_by_name(&opt.jobs)
    };
    requirement_covered!(DSG_CLI: "Command Line Interface");

    res.map_err(|e| Box::new(e).into())
""", """    let res = match opt.jobs.as_slice() {
        [] => controller.run_default_jobs(),
        names => controller.run_jobs_by_name(names),
    };
    Ok(res?)
"""))
same("rf_mn_rc", (M, """        Ok(JobSuccess::Success) => 0,
        Ok(JobSuccess::ErrorsDetected) => 1,
""", """        Ok(success) => i32::from(success == JobSuccess::ErrorsDetected),
"""))
same("rf_mn_code_fn", (M, """    match r {
        Err(e) => {
            log::error!("{}", e);
            eprintln!("{e}");
            2
        }
        Ok(JobSuccess::Success) => 0,
        Ok(JobSuccess::ErrorsDetected) => 1,
    }
""", """    if let Err(e) = &r {
        log::error!("{}", e);
        eprintln!("{e}");
    }
    exit_code(&r)
"""), (M, "fn main_rc() -> i32", """fn exit_code<E>(r: &Result<JobSuccess, E>) -> i32 {
    match r {
        Ok(JobSuccess::Success) => 0,
        Ok(JobSuccess::ErrorsDetected) => 1,
        Err(_) => 2,
    }
}

fn main_rc() -> i32"""))
same("rf_mn_version", (M, """    if let Some(version) = config.version {
        if version > CONFIG_VERSION {
            return Err(format!(
                "{} has unknown version {}",
                opt.config_file.display(),
                version
            )
            .into());
        }
    }

    Ok(config)
""", """    match config.version {
        Some(version) if version > CONFIG_VERSION => Err(format!(
            "{} has unknown version {}",
            opt.config_file.display(),
            version
        )
        .into()),
        _ => Ok(config),
    }
"""))
same("rf_mn_read_str", (M, """    let config: Config = toml::from_slice(
        fs::read(&opt.config_file)
            .map_err(|e| format!("{}: {}", &opt.config_file.display(), e))?
            .as_slice(),
    )
""", """    let text = match fs::read(&opt.config_file) {
        Ok(text) => text,
        Err(e) => return Err(format!("{}: {}", &opt.config_file.display(), e).into()),
    };
    let config: Config = toml::from_slice(&text)
"""))

# ------------------------------------------------------------ refactorings of the formatters
same("rf_tg_each", (TG, """    for l in lines {
        w.write_all(l.as_bytes())?;
    }

    Ok(())
""", """    lines.iter().try_for_each(|l| w.write_all(l.as_bytes()))
"""))
same("rf_tg_while", (TG, """    for l in lines {
        w.write_all(l.as_bytes())?;
    }
""", """    let mut i = 0;
    while i < lines.len() {
        w.write_all(lines[i].as_bytes())?;
        i += 1;
    }
"""))
same("rf_tg_concat", (TG, """    for l in lines {
        w.write_all(l.as_bytes())?;
    }
""", """    w.write_all(lines.concat().as_bytes())?;
"""))
same("rf_tg_line_fn", (TG, """        match req.location.location_in_file {
            Some(LocationInFile::Line(line) | LocationInFile::LineAndColumn(line, _)) => {
                lines.push(format!(
                    "{}\\t{}\\t{};\\"\\tr\\n",
                    req.id,
                    req.location.file.display(),
                    line,
                ));
            }
            Some(LocationInFile::String(_)) | None => {}
        }
""", """        let Some(line) = line_of(&req.location) else {
            continue;
        };
        let file = req.location.file.display();
        lines.push(format!("{}\\t{file}\\t{line};\\"\\tr\\n", req.id));
"""), (TG, "pub fn requirements(", """fn line_of(loc: &crate::models::Location) -> Option<usize> {
    match loc.location_in_file.as_ref()? {
        LocationInFile::Line(line) => Some(*line),
        LocationInFile::LineAndColumn(line, _) => Some(*line),
        LocationInFile::String(_) => None,
    }
}

pub fn requirements("""))
same("rf_tg_nested", (TG, """    for req in graph
        .artefacts
        .values()
        .flat_map(|art| art.requirements.values())
    {
""", """    for req in graph.artefacts.values().map(|art| &art.requirements).flatten().map(|(_, req)| req) {
"""))
same("rf_gnu_index", (G, """        for req in &rel.uncovered {
            let req""", """        for i in 0..rel.uncovered.len() {
            let req = &rel.uncovered[i];
            let req"""))
same("rf_gnu_item_fn", (G, """            let req = &traced_graph.artefacts[&rel.relation.upper].requirements[req];
            writeln!(w, "{}: {} Uncovered", req.location, req.id)?;
""", """            let upper = &traced_graph.artefacts[&rel.relation.upper];
            item(w, &upper.requirements[req], "Uncovered")?;
"""), (G, """            let req = &artefact.requirements[req_id];
            writeln!(w, "{}: {} Derived", req.location, req.id)?;
""", """            item(w, &artefact.requirements[req_id], "Derived")?;
"""), (G, "pub fn tracing(", """fn item(w: &mut impl io::Write, req: &crate::models::Requirement, what: &str) -> io::Result<()> {
    writeln!(w, "{}: {} {what}", req.location, req.id)
}

pub fn tracing("""))
same("rf_gnu_parse_loop", (G, """    errors(
        traced_graph
            .artefacts
            .values()
            .flat_map(|a| a.errors.iter()),
        w,
    )?;
""", """    for artefact in traced_graph.artefacts.values() {
        errors(artefact.errors.iter(), w)?;
    }
"""))
same("rf_gnu_one_fn", (G, """    for err in errors {
        match err {
            Error::Format(loc, err) => {
                writeln!(w, "{loc}: {err}")?;
            }
""", """    for err in errors {
        match err {
            Error::Format(loc, text) => {
                write!(w, "{loc}: ")?;
                writeln!(w, "{text}")?;
            }
"""))
same("rf_gnu_dup_two", (G, """                writeln!(
                    w,
                    concat!(
                        "{}: Duplicate Requirement: {}\\n",
                        "{}: note: previously seen here",
                    ),
                    r2.location, r1.id, r1.location,
                )?;
""", """                writeln!(w, "{}: Duplicate Requirement: {}", r2.location, r2.id)?;
                writeln!(w, "{}: note: previously seen here", r1.location)?;
"""))
same("rf_md_title_map", (MD, """    if let Some(title) = &req.title {
        let replaced = format!("{}-{}", req.id, title);
        let replaced = replaced.to_lowercase();
        let replaced = REPLACE_WITH_DASH.replace_all(&replaced, "-");
        let replaced = REMOVE.replace_all(&replaced, "");

        format!("[{}](#{} \\"{}\\")", req.id, replaced, title)
    } else {
        let replaced = &req.id;
        let replaced = replaced.to_string().to_lowercase();
        let replaced = REPLACE_WITH_DASH.replace_all(&replaced, "-");
        let replaced = REMOVE.replace_all(&replaced, "");

        format!("[{}](#{})", req.id, replaced)
    }
""", """    match &req.title {
        Some(title) => {
            let target = anchor(&format!("{}-{title}", req.id));
            format!("[{}](#{target} \\"{title}\\")", req.id)
        }
        None => format!("[{}](#{})", req.id, anchor(&req.id.to_string())),
    }
"""), (MD, "/// requirement Id as markdown link\nfn", """fn anchor(text: &str) -> String {
    let lower = text.to_lowercase();
    let dashed = REPLACE_WITH_DASH.replace_all(&lower, "-");
    REMOVE.replace_all(&dashed, "").into_owned()
}

/// requirement Id as markdown link
fn"""))
same("rf_md_refs_fn", (MD, """        for c in &req.covers {
            if let Some(title) = &c.title {
                writeln!(w, "*   {}: {}", c.id, title)?;
            } else {
                writeln!(w, "*   {}", c.id,)?;
            }
        }
""", """        references(&req.covers, w)?;
"""), (MD, """        for d in &req.depends {
            if let Some(title) = &d.title {
                writeln!(w, "*   {}: {}", d.id, title)?;
            } else {
                writeln!(w, "*   {}", d.id,)?;
            }
        }
""", """        references(&req.depends, w)?;
"""), (MD, "pub fn requirement(", """fn references(list: &[Reference], w: &mut impl io::Write) -> io::Result<()> {
    for r in list {
        match &r.title {
            Some(title) => writeln!(w, "*   {}: {title}", r.id)?,
            None => writeln!(w, "*   {}", r.id)?,
        }
    }
    Ok(())
}

pub fn requirement("""))
same("rf_md_attr_filter", (MD, """    for (k, v) in &req.attributes {
        if k != "Description" {
            let v = v.trim();
            if !v.is_empty() {
                writeln!(w, "\\n{k}:")?;
                writeln!(w, "{v}")?;
            }
        }
    }

    Ok(())
}

pub fn requirements""", """    for (k, v) in req.attributes.iter().filter(|(k, _)| *k != "Description") {
        match v.trim() {
            "" => continue,
            v => write!(w, "\\n{k}:\\n{v}\\n")?,
        }
    }

    Ok(())
}

pub fn requirements"""))
same("rf_md_sort_key", (MD, "    reqs.sort_by(|r, o| r.id.cmp(&o.id));", "    reqs.sort_by_key(|r| &r.id);"))
same("rf_md_sort_push", (MD, """    let mut reqs: Vec<&Rc<Requirement>> = graph
        .artefacts
        .values()
        .flat_map(|art| art.requirements.values())
        .collect();
""", """    let mut reqs: Vec<&Rc<Requirement>> = Vec::new();
    for art in graph.artefacts.values() {
        reqs.extend(art.requirements.values());
    }
"""))
same("rf_md_head_once", (MD, """                if !headline {
                    headline = true;
                    writeln!(w)?;
                    writeln!(w)?;
                    writeln!(w, "# Input Errors")?;
                    writeln!(w)?;
                }
                writeln!(w)?;
                writeln!(w, "## {}", a.id)?;
                writeln!(w)?;
            }
            for e in &a.errors {
                err(e, w)?;
            }
        }
    }
    let mut reqs""", """                if !headline {
                    write!(w, "\\n\\n# Input Errors\\n\\n")?;
                }
                headline = true;
                write!(w, "\\n## {}\\n\\n", a.id)?;
            }
            a.errors.iter().try_for_each(|e| err(e, w))?;
        }
    }
    let mut reqs"""))
same("rf_md_any_head", (MD, """        let mut headline = false;
        for a in graph.artefacts.values() {
            if !a.errors.is_empty() {
                if !headline {
                    headline = true;
                    writeln!(w)?;
                    writeln!(w)?;
                    writeln!(w, "# Input Errors")?;
                    writeln!(w)?;
                }
                writeln!(w)?;
                writeln!(w, "## {}", a.id)?;
                writeln!(w)?;
            }
            for e in &a.errors {
                err(e, w)?;
            }
        }
    }
    let mut reqs""", """        let broken: Vec<_> = graph.artefacts.values().filter(|a| !a.errors.is_empty()).collect();
        if !broken.is_empty() {
            write!(w, "\\n\\n# Input Errors\\n\\n")?;
        }
        for a in broken {
            write!(w, "\\n## {}\\n\\n", a.id)?;
            for e in &a.errors {
                err(e, w)?;
            }
        }
    }
    let mut reqs"""))
same("rf_md_err_string", (MD, """                let mut s = Vec::new();
                err(e, &mut s)?;
                if set.insert(s.clone()) {
                    w.write_all(&s)?;
                }
""", """                let mut s = Vec::new();
                err(e, &mut s)?;
                if set.contains(&s) {
                    continue;
                }
                w.write_all(&s)?;
                set.insert(s);
"""))
same("rf_md_derived_any", (MD, """        let mut derived = true;
        for (relation""", """        let derived = req.covers.values().all(|c| c.is_empty());
        for (relation"""), (MD, """
                derived = false;
""", ""))

# ------------------------------------------------------------ what the words of a report are about
mut("lb_md_updown", "C15", (MD, "for (relation, coverages) in &req.covers {", "for (relation, coverages) in &req.depends {"), (MD, "        for (relation, coverages) in &req.depends {\n            writeln!(w, \"*   {}\", relation)?;\n            if", "        for (relation, coverages) in &req.covers {\n            writeln!(w, \"*   {}\", relation)?;\n            if"))
mut("lb_gnu_label", "C14", (G, "{}: {} Uncovered", "{}: {} Derived"))
mut("lb_gnu_head", "C14", (G, '"Derived Requirement"', '"# Uncovered Requirement"'))
mut("lb_gnu_heads", "C14", (G, '"# Uncovered Requirement"', '"# Derived Requirement"'), (G, '"Derived Requirement"', '"# Uncovered Requirement"'))
mut("lb_gnu_expected", "C14", (G, 'Expected {:?}, actual {:?}\\n",\n                        "{}: note: Defined here"\n', 'Actual {:?}, expected {:?}\\n",\n                        "{}: note: Defined here"\n'))
mut("lb_gnu_dup", "C14", (G, "r2.location, r1.id, r1.location,", "r1.location, r1.id, r2.location,"))
mut("lb_md_upper", "C15", (MD, "                requirement_link(upper),\n                requirement_link(lower),\n                upper.title", "                requirement_link(lower),\n                requirement_link(upper),\n                upper.title"))
mut("lb_md_title", "C15", (MD, '                upper.title.as_ref().unwrap_or(&"".to_owned()),\n                wrong_title,', '                wrong_title,\n                upper.title.as_ref().unwrap_or(&"".to_owned()),'))
mut("lb_md_sections", "C15", (MD, '"# Uncovered Requirements"', '"# XX"'), (MD, '"# Derived Requirements"', '"# Uncovered Requirements"'), (MD, '"# XX"', '"# Derived Requirements"'))
_RD = """            let ignore_derived_requirements =
                ac.ignore_derived_requirements.unwrap_or(is_root[&ac.id]);
"""
mut("ct_root_any_inv", "C26", (C, _RD, """            let ignore_derived_requirements = ac
                .ignore_derived_requirements
                .unwrap_or_else(|| relations.iter().any(|rel| rel.lower.contains(&ac.id)));
"""))
mut("ct_root_any_upper", "C26", (C, _RD, """            let ignore_derived_requirements = ac
                .ignore_derived_requirements
                .unwrap_or_else(|| !relations.iter().any(|rel| rel.upper == ac.id));
"""))
mut("ct_root_any_few", "C26", (C, _RD, """            let ignore_derived_requirements = ac
                .ignore_derived_requirements
                .unwrap_or_else(|| !relations.iter().any(|rel| rel.lower.len() < 9 && rel.lower.contains(&ac.id)));
"""))
mut("ct_root_any_skip", "C26", (C, _RD, """            let ignore_derived_requirements = ac
                .ignore_derived_requirements
                .unwrap_or_else(|| !relations.iter().skip(1).any(|rel| rel.lower.contains(&ac.id)));
"""))
same("ct_root_any_eq", (C, _RD, """            let ignore_derived_requirements = match ac.ignore_derived_requirements {
                Some(x) => x,
                None => {
                    let mut root = true;
                    for rel in &relations {
                        for l in &rel.lower {
                            if *l == ac.id {
                                root = false;
                            }
                        }
                    }
                    root
                }
            };
"""))
_GL = """                for entry in glob {
                    found = true;
                    match entry {"""
mut("ld_glob_skip", "C18", (C, _GL, """                for (n, entry) in glob.enumerate() {
                    found = true;
                    if n >= 100 {
                        continue;
                    }
                    match entry {"""))
mut("ld_glob_take", "C18", (C, _GL, """                for entry in glob.take(100) {
                    found = true;
                    match entry {"""))
mut("ld_glob_filter", "C18", (C, _GL, """                for entry in glob.filter(|e| e.as_ref().map_or(true, |p| p.extension().is_some())) {
                    found = true;
                    match entry {"""))

mut("md_derived_outer", "C15", (MD, """            writeln!(w, "*   {}", relation)?;
            for (upper_requirement, reference_location) in coverages {
                writeln!(w, "    *   {}", requirement_link(upper_requirement),)?;
                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;

                derived = false;
            }
        }
        if derived {""", """            writeln!(w, "*   {}", relation)?;
            derived = false;
            for (upper_requirement, reference_location) in coverages {
                writeln!(w, "    *   {}", requirement_link(upper_requirement),)?;
                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;
            }
        }
        if derived {"""))
mut("md_derived_not", "C15", (MD, "        if derived {\n            writeln!(w, \"    *   Derived", "        if !derived {\n            writeln!(w, \"    *   Derived"))
mut("md_uncov_many", "C15", (MD, "            if coverages.is_empty() {\n                writeln!(w, \"    *    UNCOVERED", "            if coverages.len() <= 1 {\n                writeln!(w, \"    *    UNCOVERED"))
mut("md_derived_any", "C15", (MD, """        let mut derived = true;
        for (relation""", """        let derived = req.covers.values().any(|c| c.is_empty());
        for (relation"""), (MD, """
                derived = false;
""", ""))
mut("md_derived_take", "C15", (MD, """        let mut derived = true;
        for (relation""", """        let derived = req.covers.values().take(3).all(|c| c.is_empty());
        for (relation"""), (MD, """
                derived = false;
""", ""))
mut("md_derived_none", "C15", (MD, """        let mut derived = true;
        for (relation""", """        let derived = req.covers.is_empty();
        for (relation"""), (MD, """
                derived = false;
""", ""))
# ------------------------------------------------------------ refactorings of the parsers (2)
same("r2_md_commit_extend", (PM, """    if let Some(box_req) = context.req_under_construction.take() {
        context.requirements.push(Rc::from(box_req));
    }
""", """    context
        .requirements
        .extend(context.req_under_construction.take().map(Rc::from));
"""))
same("r2_md_link_match", (PM, """    if attr == ATTR_COVERS {
        context.req_under_construction.as_mut().unwrap().covers = vec;
    } else if attr == ATTR_DEPENDS {
        context.req_under_construction.as_mut().unwrap().depends = vec;
    } else {
        panic!();
    }
""", """    let req = context.req_under_construction.as_mut().unwrap();
    match attr.as_str() {
        ATTR_COVERS => req.covers = vec,
        ATTR_DEPENDS => req.depends = vec,
        _ => unreachable!("only references are collected"),
    }
"""))
same("r2_md_link_expect", (PM, """    if attr == ATTR_COVERS {
        context.req_under_construction.as_mut().unwrap().covers = vec;
    } else if attr == ATTR_DEPENDS {
        context.req_under_construction.as_mut().unwrap().depends = vec;
    } else {
        panic!();
    }
""", """    let req = context
        .req_under_construction
        .as_deref_mut()
        .expect("references belong to a requirement");
    let list = if attr == ATTR_COVERS {
        &mut req.covers
    } else if attr == ATTR_DEPENDS {
        &mut req.depends
    } else {
        panic!()
    };
    *list = vec;
"""))
_EOFS = """    match state {
        State::LookForReq => {}
        State::LookForDesc => {
            maybe_commit_req(context);
        }
        State::CollectDesc(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
            maybe_commit_req(context);
        }
        State::CollectDescNl(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
            maybe_commit_req(context);
        }
        State::LookForAttr => {
            maybe_commit_req(context);
        }
        State::CollectTextAttr(attr, val) => {
            commit_attr(context, attr, val);
            maybe_commit_req(context);
        }
        State::CollectRefLink(attr, vec) => {
            commit_link_attr(context, attr, vec);
            maybe_commit_req(context);
        }
    }
    State::LookForReq
"""
same("r2_md_eof_or", (PM, _EOFS, """    match state {
        State::LookForReq => return State::LookForReq,
        State::LookForDesc | State::LookForAttr => {}
        State::CollectDesc(desc) | State::CollectDescNl(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
        }
        State::CollectTextAttr(attr, val) => commit_attr(context, attr, val),
        State::CollectRefLink(attr, vec) => commit_link_attr(context, attr, vec),
    }
    maybe_commit_req(context);
    State::LookForReq
"""))
same("r2_md_eof_bool", (PM, _EOFS, """    let commit = !matches!(state, State::LookForReq);
    match state {
        State::CollectDesc(text) | State::CollectDescNl(text) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), text)
        }
        State::CollectTextAttr(name, text) => commit_attr(context, name, text),
        State::CollectRefLink(name, refs) => commit_link_attr(context, name, refs),
        _ => (),
    }
    if commit {
        maybe_commit_req(context);
    }
    State::LookForReq
"""))
same("r2_md_heading_or", (PM, """    match state {
        State::LookForReq => state,
        State::LookForDesc => State::LookForReq,
        State::CollectDesc(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
            State::LookForReq
        }
        State::CollectDescNl(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
            State::LookForReq
        }
        State::LookForAttr => State::LookForReq,
        State::CollectTextAttr(attr, val) => {
            commit_attr(context, attr, val);
            State::LookForReq
        }
        State::CollectRefLink(attr, vec) => {
            commit_link_attr(context, attr, vec);
            State::LookForReq
        }
    }
""", """    if let State::CollectDesc(desc) | State::CollectDescNl(desc) = state {
        commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
    } else if let State::CollectTextAttr(attr, val) = state {
        commit_attr(context, attr, val);
    } else if let State::CollectRefLink(attr, vec) = state {
        commit_link_attr(context, attr, vec);
    }
    State::LookForReq
"""))
same("r2_md_ref_fn", (PM, """            if let Some(ref_link) = REF_LINK_LINE.captures(line) {
                let id = ref_link[1].into();
                let title = ref_link.get(2).map(|m| m.as_str().to_owned());
                let location = context.location();

                vec.push(Reference {
                    id,
                    title,
                    location,
                });
                State::CollectRefLink(attr, vec)
            } else if""", """            if let Some(reference) = parse_reference(line, context) {
                vec.push(reference);
                State::CollectRefLink(attr, vec)
            } else if"""), (PM, "fn parse_state_eof(", """fn parse_reference(line: &str, context: &Context<'_>) -> Option<Reference> {
    let groups = REF_LINK_LINE.captures(line)?;
    Some(Reference {
        location: context.location(),
        id: groups[1].into(),
        title: groups.get(2).map(|m| m.as_str().into()),
    })
}

fn parse_state_eof("""))
same("r2_md_ref_match", (PM, """            } else if line.trim().is_empty() {
                commit_link_attr(context, attr, vec);
                State::LookForAttr
            } else {
                commit_link_attr(context, attr, vec);
                let err""", """            } else {
                commit_link_attr(context, attr, vec);
                if line.trim() == "" {
                    return State::LookForAttr;
                }
                let err"""))
same("r2_md_desc_or", (PM, """        State::CollectDesc(mut desc) => {
            desc.push('\\n');
            State::CollectDescNl(desc)
        }
        State::CollectDescNl(mut desc) => {
            desc.push('\\n');
            State::CollectDescNl(desc)
        }
""", """        State::CollectDesc(mut desc) | State::CollectDescNl(mut desc) => {
            desc += "\\n";
            State::CollectDescNl(desc)
        }
"""))
same("r2_md_desc_format", (PM, """        State::CollectDesc(mut desc) => {
            desc.push_str(line);
            State::CollectDesc(desc)
        }
""", """        State::CollectDesc(desc) => State::CollectDesc(format!("{}{}", desc, line)),
"""))
same("r2_md_evt_if", (PM, """                if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                    req_line = r;
                    evt = Event::Req(&req_line);
                } else if HEADING_LINE.is_match(&line) {
                    evt = Event::Heading;
                } else {
                    evt = Event::Line(&line);
                }
""", """                if !HEADING_LINE.is_match(&line) {
                    evt = Event::Line(&line);
                } else {
                    match REQUIREMENT_LINE.captures(&line) {
                        None => evt = Event::Heading,
                        Some(groups) => {
                            req_line = groups;
                            evt = Event::Req(&req_line);
                        }
                    }
                }
"""))
same("r2_md_eof_flag", (PM, """        state = parse_states(state, &mut context, &evt);

        if let Event::Eof = evt {
            break;
        }
    }

    (context.requirements, context.errors)
""", """        let last = matches!(evt, Event::Eof);
        state = parse_states(state, &mut context, &evt);
        if last {
            let Context { requirements, errors, .. } = context;
            return (requirements, errors);
        }
    }
"""))
same("r2_md_open_fn", (PM, """            if !context
                .req_under_construction
                .as_ref()
                .unwrap()
                .depends
                .is_empty()
            {
                let err = Error::DuplicateAttribute(
                    context.location(),
                    attr.to_owned(),
                    context.req_under_construction.as_ref().unwrap().id.clone(),
                );
                log::info!("found problem {:#?}", &err);
                context.errors.push(err);
            }
            parse_link_attr(context, attr, first_line)
        }
        _ => {""", """            let open = context.req_under_construction.as_ref().unwrap();
            if open.depends.len() > 0 {
                let err = Error::DuplicateAttribute(
                    context.location(),
                    attr.to_owned(),
                    open.id.clone(),
                );
                log::info!("found problem {:#?}", &err);
                context.errors.push(err);
            }
            parse_link_attr(context, attr, first_line)
        }
        _ => {"""))
same("r2_md_add_take", (PM, """    maybe_commit_req(context);
    context.level = req_line[1].len();
    let id = req_line[2].into();
    let title = Some(req_line[3].trim().to_owned());
    let location = context.location();
    let r = Requirement {
        id,
        title,
        location,
        covers: vec![],
        depends: vec![],
        tags: vec![],
        attributes: BTreeMap::new(),
    };
    context.req_under_construction = Some(Box::new(r));
""", """    let r = Requirement {
        id: req_line[2].into(),
        title: Some(req_line[3].trim().into()),
        location: context.location(),
        covers: Vec::new(),
        depends: Vec::new(),
        tags: Vec::new(),
        attributes: BTreeMap::new(),
    };
    context.level = req_line[1].len();
    if let Some(done) = context.req_under_construction.replace(Box::new(r)) {
        context.requirements.push(done.into());
    }
"""))

same("r2_mo_first", (PO, """    for (no, line) in reader.lines().enumerate() {""", """    for (line, no) in reader.lines().zip(1..) {"""), (PO, "no + 1)", "no)"))
same("r2_mo_line_fn", (PO, """                    let id = ref_link[1].into();
                    let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
                    let location = Location::new_with_line_no(path.to_path_buf(), no + 1);

                    let reference = Reference {
                        id,
                        title: referenced_title,
                        location,
                    };
                    depends.push(reference);
""", """                    depends.push(Reference {
                        id: ref_link[1].into(),
                        title: ref_link.get(2).map(|m| String::from(m.as_str())),
                        location: Location::new_with_line_no(path.into(), 1 + no),
                    });
"""))
same("r2_mo_err", (PO, """            Err(e) => {
                let err = Error::io(path, &e);
                log::info!("found problem {:#?}", &err);
                errors.push(err);
                break;
            }
""", """            Err(e) => {
                let err = Error::Io(path.to_owned(), e.to_string());
                log::warn!("{} cannot be read: {:#?}", path.display(), &err);
                errors.push(err);
                break;
            }
"""))
same("r2_mo_take_while", (PO, """    for (no, line) in reader.lines().enumerate() {
        match line {
            Ok(line) => {""", """    let mut lines = reader.lines().enumerate();
    while let Some((no, line)) = lines.next() {
        match line {
            Ok(line) => {"""))
same("r2_mo_number", (PO, """    for (no, line) in reader.lines().enumerate() {""", """    for (no, line) in (1..).zip(reader.lines()) {"""), (PO, "no + 1)", "no)"))
mut("mo_zip_zero", "C20", (PO, """    for (no, line) in reader.lines().enumerate() {""", """    for (no, line) in (0..).zip(reader.lines()) {"""), (PO, "no + 1)", "no)"))
mut("mo_zip_end", "C20 C29 C22", (PO, """    for (no, line) in reader.lines().enumerate() {""", """    for (no, line) in (1..1000).zip(reader.lines()) {"""), (PO, "no + 1)", "no)"))
# ------------------------------------------------------------ refactorings of aggregation, export, rust parser (2)
_AGR = """        let mut requirements: BTreeMap<&'g RequirementId, RequirementTrace<'g>> = traced_graph
            .artefacts
            .values()
            .flat_map(|a| {
                a.requirements.iter().map(|(id, req)| {
                    (
                        id,
                        RequirementTrace {
                            covers: BTreeMap::new(),
                            depends: BTreeMap::new(),
                            requirement: req,
                            artefact: a,
                        },
                    )
                })
            })
            .collect();
"""
same("r2_ag_loop", (A, _AGR, """        let mut requirements: BTreeMap<&'g RequirementId, RequirementTrace<'g>> = BTreeMap::new();
        for artefact in traced_graph.artefacts.values() {
            for (id, requirement) in &artefact.requirements {
                requirements.insert(
                    id,
                    RequirementTrace {
                        covers: BTreeMap::new(),
                        depends: BTreeMap::new(),
                        artefact,
                        requirement,
                    },
                );
            }
        }
"""))
same("r2_ag_new_fn", (A, """                        RequirementTrace {
                            covers: BTreeMap::new(),
                            depends: BTreeMap::new(),
                            requirement: req,
                            artefact: a,
                        },
""", """                        RequirementTrace::new(a, req),
"""), (A, "/// Bundle with an artefact and", """impl<'g> RequirementTrace<'g> {
    fn new(artefact: &'g Artefact, requirement: &'g Requirement) -> Self {
        Self {
            artefact,
            requirement,
            covers: Default::default(),
            depends: Default::default(),
        }
    }
}

/// Bundle with an artefact and"""))
_AGP = """                requirements
                    .get_mut(&cov.upper)
                    .unwrap()
                    .depends
                    .get_mut(&rel.relation)
                    .unwrap()
                    .push((lower_req, &cov.location));

                requirements
                    .get_mut(&cov.lower)
                    .unwrap()
                    .covers
                    .get_mut(&rel.relation)
                    .unwrap()
                    .push((upper_req, &cov.location));
"""
same("r2_ag_entry", (A, _AGP, """                if let Some(upper) = requirements.get_mut(&cov.upper) {
                    upper
                        .depends
                        .entry(&rel.relation)
                        .or_default()
                        .push((lower_req, &cov.location));
                }
                if let Some(lower) = requirements.get_mut(&cov.lower) {
                    lower
                        .covers
                        .entry(&rel.relation)
                        .or_default()
                        .push((upper_req, &cov.location));
                }
"""))
same("r2_ag_order", (A, _AGP, """                let upper = requirements.get_mut(&cov.upper).unwrap();
                let below = upper.depends.get_mut(&rel.relation).unwrap();
                below.push((lower_req, &cov.location));

                let lower = requirements.get_mut(&cov.lower).unwrap();
                let above = lower.covers.get_mut(&rel.relation).unwrap();
                above.push((upper_req, &cov.location));
"""))
same("r2_ag_lower_list", (A, """            for lower_art_id in &rel.relation.lower {
                artefacts.get_mut(lower_art_id).unwrap().upper.push(rel);
                for req_id in traced_graph.artefacts[lower_art_id].requirements.keys() {""", """            for lower_art_id in rel.relation.lower.iter() {
                let lower_artefact = artefacts.get_mut(lower_art_id).unwrap();
                lower_artefact.upper.push(rel);
                for req_id in lower_artefact.artefact.requirements.keys() {"""))
same("r2_ag_or_insert", (A, """                requirements
                    .get_mut(req_id)
                    .unwrap()
                    .depends
                    .insert(&rel.relation, vec![]);
""", """                requirements
                    .get_mut(req_id)
                    .unwrap()
                    .depends
                    .entry(&rel.relation)
                    .or_insert_with(Vec::new);
"""))
_SEN = """        let mut requirements: Vec<_> = requirements.map(Rc::clone).collect();
        requirements.sort_by(|r, o| r.id.cmp(&o.id));
"""
same("r2_se_key", (SE, _SEN, """        let mut requirements = requirements.cloned().collect::<Vec<_>>();
        requirements.sort_by(|a, b| a.id.partial_cmp(&b.id).unwrap_or(std::cmp::Ordering::Equal));
"""))
same("r2_se_loop", (SE, _SEN, """        let mut sorted = Vec::new();
        for requirement in requirements {
            sorted.push(Rc::clone(requirement));
        }
        sorted.sort_by(|r, o| r.id.cmp(&o.id));
        let requirements = sorted;
"""))
same("r2_se_cached", (SE, """        let mut errors: Vec<_> = errors.map(models::Error::clone).collect();
        errors.sort_unstable_by_key(ToString::to_string);
        Self {
            version: VERSION,
            requirements,
            errors,
        }
""", """        Self {
            version: VERSION,
            requirements,
            errors: sorted_errors(errors),
        }
"""), (SE, "impl Requirements {", """fn sorted_errors<'e>(errors: impl Iterator<Item = &'e models::Error>) -> Vec<models::Error> {
    let mut errors: Vec<_> = errors.cloned().collect();
    errors.sort_by_cached_key(|e| e.to_string());
    errors
}

impl Requirements {"""))
same("r2_fm_json_fn", (FM, """        Format::Json => serde_json::to_writer_pretty(
            writer,
            &serialize::Requirements::new(
                graph
                    .artefacts
                    .values()
                    .flat_map(|a| a.requirements.values()),
                graph.artefacts.values().flat_map(|a| a.errors.iter()),
            ),
        )
        .map_err(io::Error::other),
""", """        Format::Json => {
            let artefacts = || graph.artefacts.values();
            let listing = serialize::Requirements::new(
                artefacts().flat_map(|a| a.requirements.values()),
                artefacts().flat_map(|a| &a.errors),
            );
            serde_json::to_writer_pretty(writer, &listing)?;
            Ok(())
        }
"""))
same("r2_fm_json_map", (FM, """                graph
                    .artefacts
                    .values()
                    .flat_map(|a| a.requirements.values()),
""", """                graph
                    .artefacts
                    .iter()
                    .map(|(_, a)| a.requirements.values())
                    .flatten(),
"""))
same("r2_fm_json_str", (FM, """        Format::Json => serde_json::to_writer_pretty(writer, &serialize::Trace::new(traced_graph))
            .map_err(io::Error::other),
""", """        Format::Json => {
            let text = serde_json::to_string_pretty(&serialize::Trace::new(traced_graph)).map_err(io::Error::other)?;
            writer.write_all(text.as_bytes())
        }
"""))
same("r2_rs_first", (PR, """        if seg.len() != 1 {
            return false;
        }
        if seg[0].ident != "requirement_covered" {
            return false;
        }
""", """        if seg.len() != 1 || seg[0].ident != "requirement_covered" {
            return false;
        }
"""))
same("r2_rs_arg_or", (PR, """                if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
                    Some((id.to_string(), None))
                } else {
                    if let Some(id) = string_literal(&tokens[0]) {
                        // requirement_covered!("REQU_ID")
                        Some((id, None))
                    } else {
                        let err = Error::Format(
                            location_from_span(self.path, &tokens[0].span()),
                            "requirement_covered!() single argument is not an identifier"
                                .to_owned(),
                        );
                        log::info!("found problem {:#?}", &err);
                        self.errors.push(err);
                        None
                    }
                }
""", """                let id = match &tokens[0] {
                    proc_macro2::TokenTree::Ident(id) => Some(id.to_string()),
                    other => string_literal(other),
                };
                if id.is_none() {
                    let err = Error::Format(
                        location_from_span(self.path, &tokens[0].span()),
                        "requirement_covered!() single argument is not an identifier".to_owned(),
                    );
                    log::info!("found problem {:#?}", &err);
                    self.errors.push(err);
                }
                id.map(|id| (id, None))
"""))
same("r2_rs_literal_match", (PR, """    if let proc_macro2::TokenTree::Literal(literal) = token {
        if let syn::Lit::Str(string) = syn::Lit::new(literal.clone()) {
            return Some(string.value());
        }
    }
    None
""", """    let proc_macro2::TokenTree::Literal(literal) = token else {
        return None;
    };
    match syn::Lit::new(literal.clone()) {
        syn::Lit::Str(string) => Some(string.value()),
        _ => None,
    }
"""))
same("r2_rs_symbol", (PR, """        let type_ = node.self_ty.to_token_stream().to_string();
        let symbol;
        if let Some((bang, trait_, _for_tok)) = &node.trait_ {
            let trait_ = trait_.to_token_stream().to_string();

            if bang.is_some() {
                symbol = format!("({type_} as !{trait_})");
            } else {
                symbol = format!("({type_} as {trait_})");
            }
        } else {
            symbol = type_;
        }
""", """        let type_ = node.self_ty.to_token_stream().to_string();
        let symbol = match &node.trait_ {
            None => type_,
            Some((bang, trait_, _)) => {
                let bang = if bang.is_some() { "!" } else { "" };
                format!("({} as {}{})", type_, bang, trait_.to_token_stream())
            }
        };
"""))
same("r2_rs_enter", (PR, """    fn visit_item_fn(&mut self, node: &'ast ItemFn) {
        self.scope.push(node.sig.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.sig.ident.span()));
        visit::visit_item_fn(self, node);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();
    }
""", """    fn visit_item_fn(&mut self, node: &'ast ItemFn) {
        self.enter(&node.sig.ident);
        visit::visit_item_fn(self, node);
        self.leave();
    }
"""), (PR, "    fn visit_item_mod(&mut self, node: &'ast syn::ItemMod) {\n        self.scope.push(node.ident.to_string());\n        self.locations\n            .push(location_from_span(self.path, &node.ident.span()));\n        visit::visit_item_mod(self, node);\n        self.locations.pop().unwrap();\n        self.scope.pop().unwrap();\n", "    fn visit_item_mod(&mut self, node: &'ast syn::ItemMod) {\n        self.enter(&node.ident);\n        visit::visit_item_mod(self, node);\n        self.leave();\n"),
     (PR, "impl Parser<'_> {", """impl Parser<'_> {
    fn enter(&mut self, name: &proc_macro2::Ident) {
        let location = location_from_span(self.path, &name.span());
        self.locations.push(location);
        self.scope.push(name.to_string());
    }

    fn leave(&mut self) {
        self.scope.pop();
        self.locations.pop();
    }
"""))
same("r2_rs_err_fn", (PR, """        Err(e) => {
            let err = Error::io(path, &e);
            log::info!("found problem {:#?}", &err);
            errors.push(err);
        }
        Ok(_bytes)""", """        Err(e) => {
            log::info!("cannot read {}", path.display());
            return (requirements, vec![Error::io(path, &e)]);
        }
        Ok(_bytes)"""))

# ---- third round of refactorings
_CTU = """            let unknown = std::iter::once(&rel.upper)
                .chain(&rel.lower)
                .find(|id| !is_root.contains_key(id));
"""
same("r3_ct_unknown_fn", (C, _CTU, """            let unknown = unknown_artefact(rel, |id| is_root.contains_key(id));
"""), (C, "#[derive(Debug)]\npub struct Controller {", """fn unknown_artefact(rel: &Relation, known: impl Fn(&ArtefactId) -> bool) -> Option<&ArtefactId> {
    if !known(&rel.upper) {
        return Some(&rel.upper);
    }
    rel.lower.iter().find(|id| !known(id))
}

#[derive(Debug)]
pub struct Controller {"""))
same("r3_ct_unknown_loop", (C, _CTU, """            let mut unknown = None;
            for id in &rel.lower {
                if unknown.is_none() && !is_root.contains_key(id) {
                    unknown = Some(id);
                }
            }
            if !is_root.contains_key(&rel.upper) {
                unknown = Some(&rel.upper);
            }
"""))
same("r3_ct_partition", (C, """        relations.retain(|rel| {
            let unknown = std::iter::once(&rel.upper)
                .chain(&rel.lower)
                .find(|id| !is_root.contains_key(id));
            if let Some(id) = unknown {
                config_error = Some(ControllerError::Config(format!(
                    "Relation {rel} references unknown artefact {id}"
                )));
            }
            unknown.is_none()
        });
""", """        let mut valid = Vec::with_capacity(relations.len());
        for rel in relations {
            let known = is_root.contains_key(&rel.upper)
                && rel.lower.iter().all(|id| is_root.contains_key(id));
            if known {
                valid.push(rel);
            } else {
                config_error = Some(ControllerError::Config(format!(
                    "Relation {rel} references an unknown artefact"
                )));
            }
        }
        let relations = valid;
"""), (C, "let mut relations: Vec<Relation> = config.relations;", "let relations: Vec<Relation> = config.relations;"))
same("r3_ct_is_root_or", (C, "            let ignore_derived_requirements =\n                ac.ignore_derived_requirements.unwrap_or(is_root[&ac.id]);", """            let ignore_derived_requirements = match ac.ignore_derived_requirements {
                Some(ignore) => ignore,
                None => is_root.get(&ac.id).copied().unwrap_or(true),
            };"""))
same("r3_ct_title_partition", (C, """            if reference_with_title {
                errors.extend(
                    requirements
                        .values()
                        .filter(|r| r.title.is_none())
                        .map(|r| Error::RequirementWithoutTitle(Rc::clone(r))),
                );
            }
""", """            if reference_with_title {
                for r in requirements.values() {
                    match &r.title {
                        Some(_) => continue,
                        None => errors.push(Error::RequirementWithoutTitle(r.clone())),
                    }
                }
            }
"""))
same("r3_ct_title_iter_flag", (C, """            if reference_with_title {
                errors.extend(
                    requirements
                        .values()
                        .filter(|r| r.title.is_none())
                        .map(|r| Error::RequirementWithoutTitle(Rc::clone(r))),
                );
            }
""", """            errors.extend(
                requirements
                    .values()
                    .filter(|r| reference_with_title && r.title.is_none())
                    .cloned()
                    .map(Error::RequirementWithoutTitle),
            );
"""))
_DUP = """        match requirements.entry(req.id.clone()) {
            btree_map::Entry::Occupied(e) => {
                requirement_covered!(DSG_CTRL_DETECT_DUPLICATE_REQS);
                let err = Error::DuplicateRequirement(Rc::clone(e.get()), req);
                log::info!("found problem {:#?}", &err);
                errors.push(err);
            }
            btree_map::Entry::Vacant(e) => {
                e.insert(req);
            }
        }
"""
same("r3_ld_dup_get", (C, _DUP, """        if let Some(first) = requirements.get(&req.id) {
            requirement_covered!(DSG_CTRL_DETECT_DUPLICATE_REQS);
            let err = Error::DuplicateRequirement(Rc::clone(first), req);
            log::info!("found problem {:#?}", &err);
            errors.push(err);
            continue;
        }
        requirements.insert(req.id.clone(), req);
"""), (C, "use std::collections::btree_map;\n", ""), (C, "    let mut requirements = BTreeMap::new();\n    for req in requirement_vec", "    let mut requirements: BTreeMap<RequirementId, Rc<Requirement>> = BTreeMap::new();\n    for req in requirement_vec"))
same("r3_ld_dup_fn", (C, "    let mut requirements = BTreeMap::new();\n    for req in requirement_vec {\n" + _DUP + "    }\n\n    (paths, requirements, errors)", """    let (requirements, duplicates) = index_by_id(requirement_vec);
    errors.extend(duplicates);

    (paths, requirements, errors)"""), (C, "pub fn parse_from_config(", """fn index_by_id(
    list: Vec<Rc<Requirement>>,
) -> (BTreeMap<RequirementId, Rc<Requirement>>, Vec<Error>) {
    let mut requirements = BTreeMap::new();
    let mut errors = Vec::new();
    for req in list {
""" + _DUP + """    }
    (requirements, errors)
}

pub fn parse_from_config("""))
same("r3_ld_multi_fold", (C, """    for path in &paths {
        requirement_covered!(DSG_ART_FILES);
        match fs::File::open(path) {
            Err(err) => {
                let err = Error::Io(path.into(), err.to_string());
                log::info!("found problem {:#?}", &err);
                errors.push(err)
            }
            Ok(file) => {
                let mut r = io::BufReader::new(file);

                let (r, e) = match config.parser {
                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
                    _ => panic!("unexpected {:?}", config.parser),
                };
                requirements.extend(r);
                errors.extend(e);
            }
        }
    }
""", """    for path in paths.iter() {
        requirement_covered!(DSG_ART_FILES);
        let (mut r, mut e) = parse_path(config, path);
        requirements.append(&mut r);
        errors.append(&mut e);
    }
"""), (C, "pub fn parse_from_config(", """fn parse_path(config: &ArtefactConfig, path: &Path) -> (Vec<Rc<Requirement>>, Vec<Error>) {
    let file = match fs::File::open(path) {
        Ok(file) => file,
        Err(err) => {
            let err = Error::Io(path.to_path_buf(), err.to_string());
            log::info!("found problem {:#?}", &err);
            return (Vec::new(), vec![err]);
        }
    };
    let mut r = io::BufReader::new(file);
    match config.parser {
        ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
        _ => panic!("unexpected {:?}", config.parser),
    }
}

pub fn parse_from_config("""))
same("r3_jb_has_errors_fn", (C, "                if tg.artefacts.values().any(|art| !art.errors.is_empty()) {", "                if any_errors(&tg.artefacts) {"), (C, """                if self
                    .graph
                    .artefacts
                    .values()
                    .any(|art| !art.errors.is_empty())
                {""", "                if any_errors(&self.graph.artefacts) {"), (C, "#[derive(Debug)]\npub struct Controller {", """fn any_errors(artefacts: &BTreeMap<ArtefactId, Rc<Artefact>>) -> bool {
    for artefact in artefacts.values() {
        if !artefact.errors.is_empty() {
            return true;
        }
    }
    false
}

#[derive(Debug)]
pub struct Controller {"""))
same("r3_jb_all", (C, """                if tg
                    .traced_relations
                    .iter()
                    .any(|rel| !rel.uncovered.is_empty())
                {""", "                if !tg.traced_relations.iter().all(|rel| rel.uncovered.is_empty()) {"), (C, "if tg.derived.values().any(|a| !a.is_empty()) {", "if tg.derived.values().map(Vec::len).sum::<usize>() > 0 {"))
same("r3_jb_flush", (C, """        write_res
            .and_then(|()| io::Write::flush(&mut out))
            .map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
""", """        let io_error = |e: io::Error| ControllerError::Io(job.file.clone(), e.to_string());
        write_res.map_err(io_error)?;
        io::Write::flush(&mut out).map_err(io_error)?;
"""))
same("r3_jb_lookup_collect", (C, """        let mut jobs = Vec::new();
        for j in job_names {
            if let Some(job) = self.find_job(j) {
                jobs.push(job);
            } else {
                let err = ControllerError::UnknownJob(j.clone());
                log::info!("found problem {:#?}", &err);
                return Err(err);
            }
        }
        self.run_jobs(&jobs, job_names)
""", """        let jobs = job_names
            .iter()
            .map(|j| {
                self.find_job(j).ok_or_else(|| {
                    let err = ControllerError::UnknownJob(j.clone());
                    log::info!("found problem {:#?}", &err);
                    err
                })
            })
            .collect::<Result<Vec<_>, _>>()?;
        self.run_jobs(&jobs, job_names)
"""))
same("r3_jb_default_match", (C, """        if !self.default_jobs.is_empty() {
            self.run_jobs_by_name(&self.default_jobs)
        } else {
            let err = ControllerError::Config("no default_jobs configured".into());
            log::info!("found problem {:#?}", &err);
            Err(err)
        }
""", """        match self.default_jobs.as_slice() {
            [] => {
                let err = ControllerError::Config("no default_jobs configured".into());
                log::info!("found problem {:#?}", &err);
                Err(err)
            }
            names => self.run_jobs_by_name(names),
        }
"""))
same("r3_mo_stem_or", (PO, """        if let Some(stem) = path.file_stem() {
            stem.to_string_lossy().to_string().into()
        } else {
            let err = Error::Config(format!(
                "file for 'MonoReq' parser `{} has no stem",
                path.display(),
            ));
            log::info!("found problem {:#?}", &err);
            errors.push(err);

            "README".into()
        }
""", """        path.file_stem()
            .map(|stem| stem.to_string_lossy().into_owned())
            .unwrap_or_else(|| {
                let err = Error::Config(format!(
                    "file for 'MonoReq' parser `{} has no stem",
                    path.display(),
                ));
                log::info!("found problem {:#?}", &err);
                errors.push(err);

                "README".to_string()
            })
            .into()
"""))
same("r3_mo_let_else", (PO, """        match line {
            Ok(line) => {
                if title.is_none() {
                    title = Some(line);
                } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
                    let id = ref_link[1].into();
                    let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
                    let location = Location::new_with_line_no(path.to_path_buf(), no + 1);

                    let reference = Reference {
                        id,
                        title: referenced_title,
                        location,
                    };
                    depends.push(reference);
                }
            }

            Err(e) => {
                let err = Error::io(path, &e);
                log::info!("found problem {:#?}", &err);
                errors.push(err);
                break;
            }
        }
""", """        let line = match line {
            Ok(line) => line,
            Err(e) => {
                let err = Error::io(path, &e);
                log::info!("found problem {:#?}", &err);
                errors.push(err);
                break;
            }
        };
        if title.is_none() {
            title = Some(line);
            continue;
        }
        let Some(ref_link) = REF_LINK_LINE.captures(&line) else {
            continue;
        };
        depends.push(Reference {
            id: ref_link[1].into(),
            title: ref_link.get(2).map(|m| m.as_str().to_owned()),
            location: Location::new_with_line_no(path.to_path_buf(), no + 1),
        });
"""))
same("r3_md_flush_fn", (PM, """    match state {
        State::CollectDesc(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
        }
        State::CollectDescNl(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
        }
        State::CollectTextAttr(attr, val) => {
            commit_attr(context, attr, val);
        }
        State::CollectRefLink(attr, vec) => {
            commit_link_attr(context, attr, vec);
        }
        _ => {}
    }
    add_req(context, req_line)
""", """    flush(state, context);
    add_req(context, req_line)
"""), (PM, """    match state {
        State::LookForReq => state,
        State::LookForDesc => State::LookForReq,
        State::CollectDesc(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
            State::LookForReq
        }
        State::CollectDescNl(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
            State::LookForReq
        }
        State::LookForAttr => State::LookForReq,
        State::CollectTextAttr(attr, val) => {
            commit_attr(context, attr, val);
            State::LookForReq
        }
        State::CollectRefLink(attr, vec) => {
            commit_link_attr(context, attr, vec);
            State::LookForReq
        }
    }
}
""", """    flush(state, context);
    State::LookForReq
}

/// Store what was collected so far
fn flush(state: State, context: &mut Context<'_>) {
    match state {
        State::LookForReq | State::LookForDesc | State::LookForAttr => {}
        State::CollectDesc(desc) | State::CollectDescNl(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
        }
        State::CollectTextAttr(attr, val) => commit_attr(context, attr, val),
        State::CollectRefLink(attr, vec) => commit_link_attr(context, attr, vec),
    }
}
"""))
same("r3_md_evt_owned", (PM, "    Req(&'a Captures<'a>),", "    Req(Captures<'a>),"), (PM, "        let req_line;\n\n", ""), (PM, """                    req_line = r;
                    evt = Event::Req(&req_line);
""", """                    evt = Event::Req(r);
"""))
same("r3_md_classify", (PM, """                if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                    req_line = r;
                    evt = Event::Req(&req_line);
                } else if HEADING_LINE.is_match(&line) {
                    evt = Event::Heading;
                } else {
                    evt = Event::Line(&line);
                }
""", """                evt = classify(&line);
"""), (PM, "    Req(&'a Captures<'a>),", "    Req(Captures<'a>),"), (PM, "        let req_line;\n\n", ""), (PM, "fn parse_states(", """fn classify(line: &str) -> Event<'_> {
    match REQUIREMENT_LINE.captures(line) {
        Some(r) => Event::Req(r),
        None if HEADING_LINE.is_match(line) => Event::Heading,
        None => Event::Line(line),
    }
}

fn parse_states("""))
same("r3_md_link_slot", (PM, """    if attr == ATTR_COVERS {
        context.req_under_construction.as_mut().unwrap().covers = vec;
    } else if attr == ATTR_DEPENDS {
        context.req_under_construction.as_mut().unwrap().depends = vec;
    } else {
        panic!();
    }
""", """    let req = context.req_under_construction.as_mut().unwrap();
    let links = match attr.as_str() {
        ATTR_COVERS => &mut req.covers,
        ATTR_DEPENDS => &mut req.depends,
        _ => panic!(),
    };
    *links = vec;
"""))
same("r3_gnu_parse_for", (G, """    errors(
        traced_graph
            .artefacts
            .values()
            .flat_map(|a| a.errors.iter()),
        w,
    )?;
""", """    for artefact in traced_graph.artefacts.values() {
        errors(artefact.errors.iter(), w)?;
    }
"""))
same("r3_gnu_sections", (G, """    writeln!(w, "Derived Requirement")?;
    for (art, derived) in &traced_graph.derived {
        let artefact = &traced_graph.artefacts[art];
        writeln!(w, "## {}", art)?;
        for req_id in derived {
            let req = &artefact.requirements[req_id];
            writeln!(w, "{}: {} Derived", req.location, req.id)?;
        }
    }

    Ok(())
""", """    derived(traced_graph, w)
"""), (G, "pub fn tracing(traced_graph", """fn derived(traced_graph: &TracedGraph, w: &mut impl io::Write) -> io::Result<()> {
    writeln!(w, "Derived Requirement")?;
    for (art, ids) in traced_graph.derived.iter() {
        writeln!(w, "## {art}")?;
        let requirements = &traced_graph.artefacts[art].requirements;
        ids.iter().map(|id| &requirements[id]).try_for_each(|req| {
            writeln!(w, "{}: {} Derived", req.location, req.id)
        })?;
    }
    Ok(())
}

pub fn tracing(traced_graph"""))
same("r3_md_header_fn", (MD, """                if !headline {
                    headline = true;
                    writeln!(w)?;
                    writeln!(w)?;
                    writeln!(w, "# Input Errors")?;
                    writeln!(w)?;
                }
                writeln!(w)?;
                writeln!(w, "## {}", a.id)?;
                writeln!(w)?;
            }
            for e in &a.errors {
                err(e, w)?;
            }
        }
    }
    let mut reqs""", """                if !headline {
                    headline = true;
                    write!(w, "\\n\\n# Input Errors\\n\\n")?;
                }
                write!(w, "\\n## {}\\n\\n", a.id)?;
                a.errors.iter().try_for_each(|e| err(e, w))?;
            }
        }
    }
    let mut reqs"""))
same("r3_md_sort_by_key", (MD, "    reqs.sort_by(|r, o| r.id.cmp(&o.id));", "    reqs.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));"))
same("r3_md_attr_fn", (MD, """    for (k, v) in &req.attributes {
        if k != "Description" {
            let v = v.trim();
            if !v.is_empty() {
                writeln!(w, "\\n{k}:")?;
                writeln!(w, "{v}")?;
            }
        }
    }

    Ok(())
}

pub fn requirements(""", """    attributes(req, w)
}

fn attributes(req: &Requirement, w: &mut impl io::Write) -> io::Result<()> {
    for (k, v) in req.attributes.iter().filter(|(k, _)| k.as_str() != "Description") {
        match v.trim() {
            "" => {}
            v => writeln!(w, "\\n{k}:\\n{v}")?,
        }
    }
    Ok(())
}

pub fn requirements("""), (MD, """    for (k, v) in &req.requirement.attributes {
        if k != "Description" {
            let v = v.trim();
            if !v.is_empty() {
                writeln!(w, "\\n{k}:")?;
                writeln!(w, "{v}")?;
            }
        }
    }

    {
        writeln!(w, "\\nUpwards""", """    attributes(req.requirement, w)?;

    {
        writeln!(w, "\\nUpwards"""))
same("r3_md_title_disp", (MD, """        "\\n### {}{}\\n\\nOrigin: {}, {}",
        req.requirement.id,
        req.requirement
            .title
            .as_ref()
            .map(|t| format!(": {t}"))
            .unwrap_or_default(),
""", """        "\\n### {}{}\\n\\nOrigin: {}, {}",
        req.requirement.id,
        match &req.requirement.title {
            Some(title) => [": ", title].concat(),
            None => String::new(),
        },
"""))
mut("rs_loc_node", "C20", (PR, """    fn visit_impl_item_method(&mut self, node: &'ast syn::ImplItemMethod) {
        self.scope.push(node.sig.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.sig.ident.span()));""", """    fn visit_impl_item_method(&mut self, node: &'ast syn::ImplItemMethod) {
        self.scope.push(node.sig.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.span()));"""))

# ---- fourth round of refactorings
same("r4_tr_relation_fn", (T, """                        covered.push(Coverage {
                            upper: upper_requirement.id.clone(),
                            lower: lower_requirement.id.clone(),
                            location: depends.location.clone(),
                            direction: CoverageDirection::Downwards,
                        });
""", """                        covered.push(coverage(
                            upper_requirement,
                            lower_requirement,
                            depends,
                            CoverageDirection::Downwards,
                        ));
"""), (T, """                        covered.push(Coverage {
                            upper: upper_requirement.id.clone(),
                            lower: lower_requirement.id.clone(),
                            location: covers.location.clone(),
                            direction: CoverageDirection::Upwards,
                        });
""", """                        covered.push(coverage(
                            upper_requirement,
                            lower_requirement,
                            covers,
                            CoverageDirection::Upwards,
                        ));
"""), (T, "impl Tracer {", """fn coverage(
    upper: &Requirement,
    lower: &Requirement,
    reference: &Reference,
    direction: CoverageDirection,
) -> Coverage {
    Coverage {
        upper: upper.id.clone(),
        lower: lower.id.clone(),
        location: reference.location.clone(),
        direction,
    }
}

impl Tracer {"""))
same("r4_tr_title_err", (T, """                        if let Some(title) = depends.title.as_ref() {
                            if Some(title) != lower_requirement.title.as_ref() {
                                self.errors.push(DependWithWrongTitle {
                                    upper: Rc::clone(upper_requirement),
                                    lower: Rc::clone(lower_requirement),
                                    wrong_title: title.into(),
                                    location: depends.location.clone(),
                                });
                            }
                        } else {
                            if lower_artefact.artefact.reference_with_title {
                                self.errors.push(Error::ReferencedWithoutTitle {
                                    referenced: Rc::clone(lower_requirement),
                                    location: depends.location.clone(),
                                });
                            }
                        }
""", """                        match &depends.title {
                            Some(title) if lower_requirement.title.as_ref() == Some(title) => {}
                            Some(title) => self.errors.push(DependWithWrongTitle {
                                upper: Rc::clone(upper_requirement),
                                lower: Rc::clone(lower_requirement),
                                wrong_title: title.clone(),
                                location: depends.location.clone(),
                            }),
                            None if lower_artefact.artefact.reference_with_title => {
                                self.errors.push(Error::ReferencedWithoutTitle {
                                    referenced: Rc::clone(lower_requirement),
                                    location: depends.location.clone(),
                                })
                            }
                            None => {}
                        }
"""))
same("r4_tr_title_opt", (T, """                        if let Some(title) = covers.title.as_ref() {
                            if Some(title) != upper_requirement.title.as_ref() {
                                self.errors.push(CoveredWithWrongTitle {
                                    upper: Rc::clone(upper_requirement),
                                    lower: Rc::clone(lower_requirement),
                                    wrong_title: title.into(),
                                    location: covers.location.clone(),
                                });
                            }
                        } else {
                            if upper_artefact.reference_with_title {
                                self.errors.push(Error::ReferencedWithoutTitle {
                                    referenced: Rc::clone(upper_requirement),
                                    location: covers.location.clone(),
                                });
                            }
                        }
""", """                        let problem = check_cover(
                            upper_requirement,
                            lower_requirement,
                            covers,
                            upper_artefact.reference_with_title,
                        );
                        self.errors.extend(problem);
"""), (T, "impl Tracer {", """fn check_cover(
    upper: &Rc<Requirement>,
    lower: &Rc<Requirement>,
    covers: &Reference,
    title_needed: bool,
) -> Option<Error> {
    match covers.title.as_deref() {
        None => title_needed.then(|| Error::ReferencedWithoutTitle {
            referenced: Rc::clone(upper),
            location: covers.location.clone(),
        }),
        Some(title) if upper.title.as_deref() == Some(title) => None,
        Some(title) => Some(CoveredWithWrongTitle {
            upper: Rc::clone(upper),
            lower: Rc::clone(lower),
            wrong_title: title.to_owned(),
            location: covers.location.clone(),
        }),
    }
}

impl Tracer {"""))
same("r4_tr_count", (T, "            let mut is_covered = false;\n", "            let before = covered.len();\n"), (T, "                        is_covered = true;\n                        if let Some(title) = depends", "                        if let Some(title) = depends"), (T, "                        is_covered = true;\n\n                        if let Some(title) = covers", "                        if let Some(title) = covers"), (T, "            if !is_covered {", "            let is_covered = covered.len() > before;\n            if !is_covered {"))
same("r4_tr_unused_len", (T, "        let mut any_req_coverd = false;\n", ""), (T, "            any_req_coverd = any_req_coverd || is_covered;\n", ""), (T, "        if !any_req_coverd {", "        if covered.is_empty() {"))
same("r4_tr_add_split", (T, """                    // mark the new requirement's covers and depends links as invalid;
                    // later, in add_coverage each covered connection is removed.
                    for cov in &req.covers {
                        requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
                        self.invalid_covers_links
                            .insert((cov.id.clone(), req.id.clone()));
                    }
                    for dep in &req.depends {
                        requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
                        self.invalid_depends_links
                            .insert((req.id.clone(), dep.id.clone()));
                    }
""", """                    let id = &req.id;
                    let covers = req.covers.iter().map(|c| (c.id.clone(), id.clone()));
                    self.invalid_covers_links.extend(covers);
                    let depends = req.depends.iter().map(|d| (id.clone(), d.id.clone()));
                    self.invalid_depends_links.extend(depends);
"""))
same("r4_tr_add_early", (T, "        for req in artefact.requirements.values() {\n            match self.req_by_id.entry(req.id.clone()) {\n                btree_map::Entry::Occupied(req_entry) => {\n                    requirement_covered!(DSG_TRACE_DETECT_DUPLICATE);\n                    let (_old_art, old_req) = req_entry.get();\n                    let err = DuplicateRequirement(Rc::clone(old_req), Rc::clone(req));\n                    self.errors.push(err);\n                }\n                btree_map::Entry::Vacant(req_entry) => {\n                    req_entry.insert((artefact.id.clone(), Rc::clone(req)));\n",
     "        for (id, req) in &artefact.requirements {\n            match self.req_by_id.get(id) {\n                Some((_, old_req)) => {\n                    requirement_covered!(DSG_TRACE_DETECT_DUPLICATE);\n                    let err = DuplicateRequirement(Rc::clone(old_req), Rc::clone(req));\n                    self.errors.push(err);\n                }\n                None => {\n                    self.req_by_id\n                        .insert(id.clone(), (artefact.id.clone(), Rc::clone(req)));\n"), (T, "use std::collections::btree_map;\n", ""))
same("r4_tr_cover_default", (T, """                        match requirements_that_cover.entry(cov.id.clone()) {
                            std::collections::btree_map::Entry::Vacant(cov_entry) => {
                                cov_entry.insert(vec![(Rc::clone(req), cov.clone())]);
                            }
                            std::collections::btree_map::Entry::Occupied(mut cov_entry) => {
                                cov_entry.get_mut().push((Rc::clone(req), cov.clone()))
                            }
                        }
""", """                        requirements_that_cover
                            .entry(cov.id.clone())
                            .or_insert_with(Vec::new)
                            .push((Rc::clone(req), cov.clone()));
"""))
same("r4_tr_validate_one", (T, """            let reference = req.depends.iter().find(|r| &r.id == lower_id);

            if reference.is_none() {
                panic!("");
            }

            let location = reference.unwrap().location.clone();
""", """            let location = find_reference(&req.depends, lower_id).location.clone();
"""), (T, """            let reference: &Reference = req
                .covers
                .iter()
                .find(|r| &r.id == upper_id)
                .expect("invalid link exists");
            let location = reference.location.clone();
""", """            let location = find_reference(&req.covers, upper_id).location.clone();
"""), (T, "impl Tracer {", """fn find_reference<'r>(references: &'r [Reference], id: &RequirementId) -> &'r Reference {
    references
        .iter()
        .find(|r| r.id == *id)
        .expect("invalid link exists")
}

impl Tracer {"""))
same("r4_tr_validate_chain", (T, """        for cov in &self.invalid_covers_links {
            requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
            let (upper_id, lower_id) = cov;

            let (_art_id, req) = &self.req_by_id[lower_id];

            let reference: &Reference = req
                .covers
                .iter()
                .find(|r| &r.id == upper_id)
                .expect("invalid link exists");
            let location = reference.location.clone();

            let err = Error::CoversUnknownRequirement(Rc::clone(req), upper_id.clone(), location);
            log::info!("found problem {err:#?}");
            self.errors.push(err);
        }
""", """        let Self {
            invalid_covers_links,
            req_by_id,
            errors,
            ..
        } = self;
        errors.extend(invalid_covers_links.iter().map(|(upper_id, lower_id)| {
            let (_, req) = &req_by_id[lower_id];
            let reference = req
                .covers
                .iter()
                .find(|r| &r.id == upper_id)
                .expect("invalid link exists");
            Error::CoversUnknownRequirement(
                Rc::clone(req),
                upper_id.clone(),
                reference.location.clone(),
            )
        }));
"""))
same("r4_tr_lower_first", (T, """            for depends in &upper_requirement.depends {
                requirement_covered!(
                    DSG_TRACE_DOWNWARDS,
                    "Trace downwards using `depends` attribute"
                );
                for lower in &relation.lower {
                    let lower_artefact = self
                        .traced_artefacts
                        .get_mut(lower)
                        .expect("artefacts of relations exist");
""", """            for lower in &relation.lower {
                let lower_artefact = self
                    .traced_artefacts
                    .get_mut(lower)
                    .expect("artefacts of relations exist");
                for depends in &upper_requirement.depends {
                    requirement_covered!(
                        DSG_TRACE_DOWNWARDS,
                        "Trace downwards using `depends` attribute"
                    );
"""))
same("r4_tr_data_loop", (T, """        let (artefacts, derived) = artefacts
            .into_iter()
            .map(|(id, ta)| {
                (
                    (id.clone(), ta.artefact),
                    (id, ta.derived.into_iter().collect()),
                )
            })
            .unzip();

        TracedGraph {
            artefacts,
            traced_relations: relations,
            derived,
            errors,
        }
""", """        let mut graph = TracedGraph {
            artefacts: BTreeMap::new(),
            traced_relations: relations,
            derived: BTreeMap::new(),
            errors,
        };
        for (id, ta) in artefacts {
            graph.derived.insert(id.clone(), Vec::from_iter(ta.derived));
            graph.artefacts.insert(id, ta.artefact);
        }
        graph
"""))
same("r4_tr_get_else", (T, """                if let Some(lower) = lower_artefact
                    .requirements_that_cover
                    .get(&upper_requirement.id)
                {
                    for (lower_requirement, covers) in lower {""", """                let lower = lower_artefact
                    .requirements_that_cover
                    .get(&upper_requirement.id)
                    .map_or(&[][..], Vec::as_slice);
                {
                    for (lower_requirement, covers) in lower.iter() {"""))
same("r4_tr_flatten", (T, """                if let Some(lower) = lower_artefact
                    .requirements_that_cover
                    .get(&upper_requirement.id)
                {
                    for (lower_requirement, covers) in lower {""", """                {
                    for (lower_requirement, covers) in lower_artefact
                        .requirements_that_cover
                        .get(&upper_requirement.id)
                        .into_iter()
                        .flatten()
                    {"""))
same("r4_tr_up_fn", (T, """            if !is_covered {
                requirement_covered!(DSG_TRACE_UNCOVERED);
                uncovered.push(upper_requirement.id.clone());
            }
            any_req_coverd = any_req_coverd || is_covered;
        }
""", """            if is_covered {
                any_req_coverd = true;
                continue;
            }
            requirement_covered!(DSG_TRACE_UNCOVERED);
            uncovered.push(upper_requirement.id.clone());
        }
"""))
same("r4_md_body_fn", (MD, """            let mut set: HashSet<Vec<u8>> = HashSet::new();
            for e in errors {
                // echo each error string only once
                let mut s = Vec::new();
                err(e, &mut s)?;
                if set.insert(s.clone()) {
                    w.write_all(&s)?;
                }
            }
""", """            let mut set: HashSet<Vec<u8>> = HashSet::new();
            for e in errors {
                // echo each error string only once
                let mut s = Vec::new();
                err(e, &mut s)?;
                if set.contains(&s) {
                    continue;
                }
                w.write_all(&s)?;
                set.insert(s);
            }
"""))
same("r4_md_loc_file", (MD, """    let file = &loc.file.display();
    match &loc.location_in_file {
        Some(LocationInFile::Line(line)) => {
            format!("[{file}:{line}](../{file}?plain=1#L{line})")
        }
        Some(LocationInFile::LineAndColumn(line, column)) => {
            format!("[{file}:{line}:{column}](../{file}?plain=1#L{line})")
        }
        Some(LocationInFile::String(string)) => {
            format!("[{file}](../{file}):{string}")
        }
        None => {
            format!("[{file}](../{file})")
        }
    }
""", """    let file = loc.file.display().to_string();
    let Some(position) = &loc.location_in_file else {
        return format!("[{file}](../{file})");
    };
    match position {
        LocationInFile::Line(line) | LocationInFile::LineAndColumn(line, _) => {
            format!("[{file}:{position}](../{file}?plain=1#L{line})")
        }
        LocationInFile::String(string) => format!("[{file}](../{file}):{string}"),
    }
"""))
same("r4_md_reflist_fn", (MD, """        for c in &req.covers {
            if let Some(title) = &c.title {
                writeln!(w, "*   {}: {}", c.id, title)?;
            } else {
                writeln!(w, "*   {}", c.id,)?;
            }
        }
""", """        write_references(&req.covers, w)?;
"""), (MD, """        for d in &req.depends {
            if let Some(title) = &d.title {
                writeln!(w, "*   {}: {}", d.id, title)?;
            } else {
                writeln!(w, "*   {}", d.id,)?;
            }
        }
""", """        write_references(&req.depends, w)?;
"""), (MD, "pub fn requirement(req", """fn write_references(references: &[Reference], w: &mut impl io::Write) -> io::Result<()> {
    for reference in references {
        write!(w, "*   {}", reference.id)?;
        if let Some(title) = &reference.title {
            write!(w, ": {title}")?;
        }
        writeln!(w)?;
    }
    Ok(())
}

pub fn requirement(req"""))
same("r4_md_cov_fn", (MD, """            for (upper_requirement, reference_location) in coverages {
                writeln!(w, "    *   {}", requirement_link(upper_requirement),)?;
                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;

                derived = false;
            }
""", """            for coverage in coverages {
                write_coverage(coverage, w)?;
            }
            derived &= coverages.is_empty();
"""), (MD, """            for (upper_requirement, reference_location) in coverages {
                writeln!(w, "    *   {}", requirement_link(upper_requirement),)?;
                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;
            }
""", """            coverages.iter().try_for_each(|c| write_coverage(c, w))?;
"""), (MD, "pub fn traced_requirement(", """fn write_coverage(
    (requirement, location): &(&Requirement, &Location),
    w: &mut impl io::Write,
) -> io::Result<()> {
    writeln!(w, "    *   {}", requirement_link(requirement))?;
    writeln!(w, "        Reference: {}", location_link(location))
}

pub fn traced_requirement("""))
same("r4_tg_line_opt", (TG, """        match req.location.location_in_file {
            Some(LocationInFile::Line(line) | LocationInFile::LineAndColumn(line, _)) => {
                lines.push(format!(
                    "{}\\t{}\\t{};\\"\\tr\\n",
                    req.id,
                    req.location.file.display(),
                    line,
                ));
            }
            Some(LocationInFile::String(_)) | None => {}
        }
    }
    lines.sort();
    for l in lines {
        w.write_all(l.as_bytes())?;
    }
""", """        let line = match &req.location.location_in_file {
            Some(LocationInFile::Line(line)) => line,
            Some(LocationInFile::LineAndColumn(line, _)) => line,
            _ => continue,
        };
        let file = req.location.file.display();
        lines.push(format!("{}\\t{file}\\t{line};\\"\\tr", req.id));
    }
    lines.sort();
    for l in &lines {
        writeln!(w, "{l}")?;
    }
"""))
same("r4_mn_exit", (M, """    match r {
        Err(e) => {
            log::error!("{}", e);
            eprintln!("{e}");
            2
        }
        Ok(JobSuccess::Success) => 0,
        Ok(JobSuccess::ErrorsDetected) => 1,
    }
""", """    let success = match r {
        Ok(success) => success,
        Err(e) => {
            log::error!("{}", e);
            eprintln!("{e}");
            return 2;
        }
    };
    i32::from(success == JobSuccess::ErrorsDetected)
"""))
same("r4_mn_version_fn", (M, """    if let Some(version) = config.version {
        if version > CONFIG_VERSION {
            return Err(format!(
                "{} has unknown version {}",
                opt.config_file.display(),
                version
            )
            .into());
        }
    }

    Ok(config)
""", """    match config.version {
        Some(version) if version > CONFIG_VERSION => Err(format!(
            "{} has unknown version {}",
            opt.config_file.display(),
            version
        )
        .into()),
        _ => Ok(config),
    }
"""))
same("r4_mn_exitcode", (M, "fn main_rc() -> i32 {", "fn main_rc() -> u8 {"), (M, "fn main() {\n    std::process::exit(main_rc());\n}", "fn main() -> std::process::ExitCode {\n    std::process::ExitCode::from(main_rc())\n}"))
same("r4_md_add_map", (PM, """    maybe_commit_req(context);
    context.level = req_line[1].len();
    let id = req_line[2].into();
    let title = Some(req_line[3].trim().to_owned());
    let location = context.location();
    let r = Requirement {
        id,
        title,
        location,
        covers: vec![],
        depends: vec![],
        tags: vec![],
        attributes: BTreeMap::new(),
    };
    context.req_under_construction = Some(Box::new(r));
""", """    let new = Box::new(Requirement {
        id: RequirementId::from(&req_line[2]),
        title: req_line.get(3).map(|m| m.as_str().trim().to_string()),
        location: context.location(),
        covers: Vec::new(),
        depends: Vec::new(),
        tags: Vec::new(),
        attributes: BTreeMap::new(),
    });
    context.level = req_line[1].len();
    if let Some(done) = context.req_under_construction.replace(new) {
        context.requirements.push(Rc::from(done));
    }
"""), (PM, "use crate::models::Requirement;\n", "use crate::models::Requirement;\nuse crate::models::RequirementId;\n"))
same("r4_rs_entry_fn", (PR, """            match self.requirements.iter_mut().find(|req| req.id == id) {
                Some(req) => {
                    Rc::get_mut(req).unwrap().covers.push(reference);
                }
                None => {
                    let covers = vec![reference];
                    let req = Requirement {
                        id,
                        location,
                        covers,
                        depends: vec![],
                        tags: vec![],
                        attributes: BTreeMap::new(),
                        title: None,
                    };
                    let req = Rc::new(req);
                    self.requirements.push(req);
                }
            }
        }
        true
    }
}
""", """            self.add_reference(id, location, reference);
        }
        true
    }

    fn add_reference(
        &mut self,
        id: crate::models::RequirementId,
        location: Location,
        reference: Reference,
    ) {
        for req in &mut self.requirements {
            if req.id == id {
                Rc::get_mut(req).unwrap().covers.push(reference);
                return;
            }
        }
        self.requirements.push(Rc::new(Requirement {
            id,
            title: None,
            location,
            covers: vec![reference],
            depends: Vec::new(),
            tags: Vec::new(),
            attributes: BTreeMap::new(),
        }));
    }
}
"""))
same("r4_rs_scoped", (PR, """        self.scope.push(node.sig.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.sig.ident.span()));
        visit::visit_item_fn(self, node);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();
""", """        self.scoped(&node.sig.ident, |this| visit::visit_item_fn(this, node));
"""), (PR, """        self.scope.push(node.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.ident.span()));
        visit::visit_item_mod(self, node);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();
""", """        self.scoped(&node.ident, |this| visit::visit_item_mod(this, node));
"""), (PR, "impl Parser<'_> {\n", """impl Parser<'_> {
    fn scoped(&mut self, name: &syn::Ident, walk: impl FnOnce(&mut Self)) {
        self.scope.push(name.to_string());
        self.locations.push(location_from_span(self.path, &name.span()));
        walk(self);
        self.locations.pop();
        self.scope.pop();
    }

"""))

# ---- fifth round of refactorings
same("r5_mo_parse_match", (MO, """        let location_in_file = if let Some(line) = caps.name("line") {
            let line = line.as_str();
            let line = line
                .parse()
                .map_err(|e| format!("Error parsing line {line}: {e}"))?;
            if let Some(column) = caps.name("column") {
                let column = column.as_str();
                let column = column
                    .parse()
                    .map_err(|e| format!("Error parsing column {column}: {e}"))?;
                Some(LocationInFile::LineAndColumn(line, column))
            } else {
                Some(LocationInFile::Line(line))
            }
        } else {
            None
        };
""", """        let number = |name: &str| -> Result<Option<usize>, String> {
            match caps.name(name) {
                None => Ok(None),
                Some(text) => text
                    .as_str()
                    .parse()
                    .map(Some)
                    .map_err(|e| format!("Error parsing {name} {}: {e}", text.as_str())),
            }
        };
        let location_in_file = match (number("line")?, number("column")?) {
            (Some(line), Some(column)) => Some(LocationInFile::LineAndColumn(line, column)),
            (Some(line), None) => Some(LocationInFile::Line(line)),
            (None, _) => None,
        };
"""))
same("r5_mo_disp_match", (MO, """        if let Some(loc) = &self.location_in_file {
            write!(f, "{}:{}", self.file.display(), loc)
        } else {
            write!(f, "{}", self.file.display())
        }
""", """        self.file.display().fmt(f)?;
        match &self.location_in_file {
            Some(loc) => write!(f, ":{loc}"),
            None => Ok(()),
        }
"""))
same("r5_mo_disp_lif", (MO, """            LocationInFile::Line(ref line) => write!(f, "{line}"),
            LocationInFile::LineAndColumn(line, column) => write!(f, "{line}:{column}"),
            LocationInFile::String(s) => write!(f, "{s}"),
""", """            Self::Line(line) => line.fmt(f),
            Self::LineAndColumn(line, column) => {
                line.fmt(f)?;
                f.write_str(":")?;
                column.fmt(f)
            }
            Self::String(s) => f.write_str(s),
"""))
same("r5_mo_rel_disp", (MO, """        let lower = self
            .lower
            .iter()
            .map(|id| id.0.clone()) // TODO: there has to be a better way
            .collect::<Vec<_>>()
            .join(", ");
        write!(f, "{} => [{}]", self.upper, lower,)
""", """        write!(f, "{} => [", self.upper)?;
        for (i, id) in self.lower.iter().enumerate() {
            if i > 0 {
                write!(f, ", ")?;
            }
            write!(f, "{id}")?;
        }
        write!(f, "]")
"""))
same("r5_mo_rel_disp2", (MO, """        let lower = self
            .lower
            .iter()
            .map(|id| id.0.clone()) // TODO: there has to be a better way
            .collect::<Vec<_>>()
            .join(", ");
        write!(f, "{} => [{}]", self.upper, lower,)
""", """        let lower: Vec<&str> = self.lower.iter().map(|id| id.0.as_str()).collect();
        write!(f, "{} => [{}]", self.upper, lower.join(", "))
"""))
same("r5_mo_id_fmt", (MO, """impl fmt::Display for RequirementId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}""", """impl fmt::Display for RequirementId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let Self(text) = self;
        fmt::Display::fmt(text, f)
    }
}"""))
same("r5_mo_id_string", (MO, """impl From<&str> for RequirementId {
    fn from(value: &str) -> Self {
        Self(value.to_owned())
    }
}""", """impl From<&str> for RequirementId {
    fn from(value: &str) -> Self {
        String::from(value).into()
    }
}"""))
same("r5_mo_loc_ctor", (MO, """        Self {
            file,
            location_in_file: Some(LocationInFile::Line(line)),
        }
""", """        let location_in_file = Some(LocationInFile::Line(line));
        Self {
            location_in_file,
            ..Self::new_with_no_pos(file)
        }
"""))
_DA = """        ATTR_COVERS => {
            if !context
                .req_under_construction
                .as_ref()
                .unwrap()
                .covers
                .is_empty()
            {
                let err = Error::DuplicateAttribute(
                    context.location(),
                    attr.to_owned(),
                    context.req_under_construction.as_ref().unwrap().id.clone(),
                );
                log::info!("found problem {:#?}", &err);
                context.errors.push(err);
            }
            parse_link_attr(context, attr, first_line)
        }
        ATTR_DEPENDS => {
            if !context
                .req_under_construction
                .as_ref()
                .unwrap()
                .depends
                .is_empty()
            {
                let err = Error::DuplicateAttribute(
                    context.location(),
                    attr.to_owned(),
                    context.req_under_construction.as_ref().unwrap().id.clone(),
                );
                log::info!("found problem {:#?}", &err);
                context.errors.push(err);
            }
            parse_link_attr(context, attr, first_line)
        }
        _ => {
            if context
                .req_under_construction
                .as_ref()
                .unwrap()
                .attributes
                .contains_key(attr)
            {
                let err = Error::DuplicateAttribute(
                    context.location(),
                    attr.to_owned(),
                    context.req_under_construction.as_ref().unwrap().id.clone(),
                );
                log::info!("found problem {:#?}", &err);
                context.errors.push(err);
            }
            State::CollectTextAttr(attr.to_owned(), first_line.to_owned())
        }
    }
"""
same("r5_md_dup_fn", (PM, _DA, """        ATTR_COVERS => {
            let seen = !context.current().covers.is_empty();
            report_duplicate(context, attr, seen);
            parse_link_attr(context, attr, first_line)
        }
        ATTR_DEPENDS => {
            let seen = !context.current().depends.is_empty();
            report_duplicate(context, attr, seen);
            parse_link_attr(context, attr, first_line)
        }
        _ => {
            let seen = context.current().attributes.contains_key(attr);
            report_duplicate(context, attr, seen);
            State::CollectTextAttr(attr.to_owned(), first_line.to_owned())
        }
    }
"""), (PM, "fn start_attribute(", """fn report_duplicate(context: &mut Context<'_>, attr: &str, seen: bool) {
    if !seen {
        return;
    }
    let err = Error::DuplicateAttribute(
        context.location(),
        attr.to_owned(),
        context.current().id.clone(),
    );
    log::info!("found problem {:#?}", &err);
    context.errors.push(err);
}

fn start_attribute("""), (PM, "    fn location(&self) -> Location {", """    fn current(&self) -> &Requirement {
        self.req_under_construction.as_ref().unwrap()
    }

    fn location(&self) -> Location {"""))
same("r5_md_dup_match", (PM, "    match attr {\n        // TODO  ATTR_TAGS => self.parse_tags(val);\n" + _DA, """    let req = context.req_under_construction.as_ref().unwrap();
    let is_link = attr == ATTR_COVERS || attr == ATTR_DEPENDS;
    let duplicate = match attr {
        ATTR_COVERS => !req.covers.is_empty(),
        ATTR_DEPENDS => !req.depends.is_empty(),
        _ => req.attributes.contains_key(attr),
    };
    if duplicate {
        let err = Error::DuplicateAttribute(context.location(), attr.to_owned(), req.id.clone());
        log::info!("found problem {:#?}", &err);
        context.errors.push(err);
    }
    if is_link {
        parse_link_attr(context, attr, first_line)
    } else {
        State::CollectTextAttr(attr.to_owned(), first_line.to_owned())
    }
"""))
same("r5_fm_agg_let", (FM, """            let aggregated_graph = AggregatedGraph::new(traced_graph);
            markdown::tracing(&aggregated_graph, writer)
""", """            markdown::tracing(&AggregatedGraph::new(traced_graph), writer)
"""))
same("r5_fm_if_let", (FM, """    match format {
        Format::Tags => tags::requirements(graph, writer),
        Format::Markdown => markdown::requirements(graph, writer),
        Format::Json => serde_json::to_writer_pretty(
            writer,
            &serialize::Requirements::new(
                graph
                    .artefacts
                    .values()
                    .flat_map(|a| a.requirements.values()),
                graph.artefacts.values().flat_map(|a| a.errors.iter()),
            ),
        )
        .map_err(io::Error::other),
        Format::GnuError | Format::TemplateFile(_) | Format::TemplateString(_) => {
            Err(unsupported("Parse", format))
        }
    }
""", """    if let Format::Tags = format {
        return tags::requirements(graph, writer);
    }
    if let Format::Markdown = format {
        return markdown::requirements(graph, writer);
    }
    if !matches!(format, Format::Json) {
        return Err(unsupported("Parse", format));
    }
    let artefacts = graph.artefacts.values();
    let requirements = artefacts.clone().flat_map(|a| a.requirements.values());
    let errors = artefacts.flat_map(|a| &a.errors);
    let document = serialize::Requirements::new(requirements, errors);
    serde_json::to_writer_pretty(writer, &document).map_err(io::Error::other)
"""))
same("r5_jb_out_match", (C, """        if job.file.as_os_str() == "-" {
            out = Box::new(stdout.lock());
            log::info!("writing {job_name:?} to stdout");
        } else {
            let path = if job.file.is_absolute() {
                &job.file
            } else {
                &self.base_dir.join(&job.file)
            };
            if let Some(p) = &path.parent() {
                std::fs::create_dir_all(p)
                    .map_err(|e| ControllerError::Io(p.to_path_buf(), e.to_string()))?;
            }

            let file = fs::File::create(&path)
                .map_err(|e| ControllerError::Io(path.clone(), e.to_string()))?;
            out = Box::new(file);
            log::info!("writing {} to {}", &job_name, path.display());
        }
""", """        if job.file == Path::new("-") {
            out = Box::new(stdout.lock());
            log::info!("writing {job_name:?} to stdout");
        } else {
            let path = self.base_dir.join(&job.file);
            if let Some(p) = path.parent() {
                std::fs::create_dir_all(p)
                    .map_err(|e| ControllerError::Io(p.to_path_buf(), e.to_string()))?;
            }

            let file = fs::OpenOptions::new()
                .write(true)
                .create(true)
                .truncate(true)
                .open(&path)
                .map_err(|e| ControllerError::Io(path.clone(), e.to_string()))?;
            out = Box::new(file);
            log::info!("writing {} to {}", &job_name, path.display());
        }
"""))
same("r5_jb_bufwriter", (C, "            out = Box::new(file);\n", "            out = Box::new(io::BufWriter::new(file));\n"))
same("r5_jb_success_fn", (C, """        match success {
            JobSuccess::Success => {
                log::info!("Job {} successful", job_name);
            }
            JobSuccess::ErrorsDetected => {
                log::warn!("Job {} detected Errors", job_name);
            }
        }
        requirement_covered!(DSG_CTRL_RETURN_CODE);

        Ok(success)
""", """        if success == JobSuccess::ErrorsDetected {
            log::warn!("Job {} detected Errors", job_name);
            return Ok(JobSuccess::ErrorsDetected);
        }
        log::info!("Job {} successful", job_name);
        Ok(JobSuccess::Success)
"""))
same("r5_jb_loop_match", (C, """            match self.run(job, job_name)? {
                JobSuccess::Success => {}
                JobSuccess::ErrorsDetected => {
                    if job.set_return_code.unwrap_or(true) {
                        requirement_covered!(DSG_CTRL_RETURN_CODE);
                        success = JobSuccess::ErrorsDetected;
                    }
                }
            }
""", """            let detected = self.run(job, job_name)? == JobSuccess::ErrorsDetected;
            let relevant = !matches!(job.set_return_code, Some(false));
            if detected && relevant {
                requirement_covered!(DSG_CTRL_RETURN_CODE);
                success = JobSuccess::ErrorsDetected;
            }
"""))
same("r5_ct_config_err", (C, """        if let Some(err) = &self.config_error {
            log::info!("found problem {:#?}", &err);
            return Err(err.clone());
        }
""", """        self.check_config()?;
"""), (C, "    pub fn find_job(", """    fn check_config(&self) -> Result<(), ControllerError> {
        match &self.config_error {
            None => Ok(()),
            Some(err) => {
                log::info!("found problem {:#?}", &err);
                Err(err.clone())
            }
        }
    }

    pub fn find_job("""))
same("r5_ct_index_first", (C, """        for ac in &config.artefacts {
            if artefacts.contains_key(&ac.id) {
                config_error = Some(ControllerError::Config(format!(
                    "Artefact {} is configured twice",
                    ac.id
                )));
                continue;
            }
""", """        for ac in &config.artefacts {
            let entry = match artefacts.entry(ac.id.clone()) {
                btree_map::Entry::Vacant(entry) => entry,
                btree_map::Entry::Occupied(_) => {
                    config_error = Some(ControllerError::Config(format!(
                        "Artefact {} is configured twice",
                        ac.id
                    )));
                    continue;
                }
            };
"""), (C, "            artefacts.insert(ac.id.clone(), a);\n", "            entry.insert(a);\n"))
same("r5_ld_glob_fn", (C, """        let glob = if Path::new(path).is_relative() {
            glob::glob(&format!("{}/{}", base_dir.display(), path))
        } else {
            glob::glob(path)
        };
        match glob {
            Err(e) => errors.push(Error::Io(PathBuf::from(path), e.to_string())),
            Ok(glob) => {
                let mut found = false;
                for entry in glob {
                    found = true;
                    match entry {
                        Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
                        Ok(entry) => result.push(entry),
                    }
                }
                if !found {
                    let err = Error::Io(PathBuf::from(path), "no file found".to_owned());
                    log::info!("found problem {:#?}", &err);
                    errors.push(err);
                }
            }
        }
""", """        let pattern = match Path::new(path).is_relative() {
            true => format!("{}/{}", base_dir.display(), path),
            false => path.to_string(),
        };
        let entries = match glob::glob(&pattern) {
            Ok(entries) => entries,
            Err(e) => {
                errors.push(Error::Io(path.into(), e.to_string()));
                continue;
            }
        };
        let before = result.len() + errors.len();
        for entry in entries {
            match entry {
                Ok(entry) => result.push(entry),
                Err(e) => errors.push(Error::Io(e.path().to_owned(), e.to_string())),
            }
        }
        if result.len() + errors.len() == before {
            let err = Error::Io(path.into(), "no file found".to_owned());
            log::info!("found problem {:#?}", &err);
            errors.push(err);
        }
"""))
same("r5_ld_json_and", (C, """                ArtefactParser::Json => match serde_json::from_reader(r) {
                    Ok(reqs) => (reqs, vec![]),
                    Err(err) => {
                        let err =
                            Error::Format(Location::new_with_no_pos(path.clone()), err.to_string());
                        log::info!("found problem {:#?}", &err);

                        (vec![], vec![err])
                    }
                },
""", """                ArtefactParser::Json => read_json(r, &path),
"""), (C, "fn parse_single_file(", """fn read_json(reader: impl io::Read, path: &Path) -> (Vec<Rc<Requirement>>, Vec<Error>) {
    serde_json::from_reader(reader).map_or_else(
        |err| {
            let location = Location::new_with_no_pos(path.to_path_buf());
            let err = Error::Format(location, err.to_string());
            log::info!("found problem {:#?}", &err);
            (Vec::new(), vec![err])
        },
        |requirements| (requirements, Vec::new()),
    )
}

fn parse_single_file("""))
same("r5_md_loop_result", (PM, """    loop {
        let evt: Event<'_>;
        let req_line;

        line.clear();
        context.line_number += 1;
        match reader.read_line(&mut line) {
            Err(e) => {
                let err = Error::Io(context.path.to_owned(), e.to_string());
                log::info!("found problem {:#?}", &err);
                context.errors.push(err);
                evt = Event::Eof; // keep what was parsed up to the error
            }
            Ok(0) => {
                evt = Event::Eof;
            }
            Ok(1) if line.starts_with('\\n') => {
                evt = Event::Empty;
            } /* TODO: Win line Endings */
            Ok(_) => {
                if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                    req_line = r;
                    evt = Event::Req(&req_line);
                } else if HEADING_LINE.is_match(&line) {
                    evt = Event::Heading;
                } else {
                    evt = Event::Line(&line);
                }
            }
        }

        state = parse_states(state, &mut context, &evt);

        if let Event::Eof = evt {
            break;
        }
    }
""", """    loop {
        line.clear();
        context.line_number += 1;
        let read = reader.read_line(&mut line);
        if let Err(e) = &read {
            let err = Error::Io(context.path.to_owned(), e.to_string());
            log::info!("found problem {:#?}", &err);
            context.errors.push(err);
        }
        if matches!(read, Err(_) | Ok(0)) {
            // keep what was parsed up to the error
            parse_states(state, &mut context, &Event::Eof);
            break;
        }

        let captures = REQUIREMENT_LINE.captures(&line);
        let evt = match &captures {
            _ if line == "\\n" => Event::Empty,
            Some(req_line) => Event::Req(req_line),
            None if HEADING_LINE.is_match(&line) => Event::Heading,
            None => Event::Line(&line),
        };
        state = parse_states(state, &mut context, &evt);
    }
"""))

# ---- sixth round
same("r6_tr_title_fn", (T, """                        if let Some(title) = depends.title.as_ref() {
                            if Some(title) != lower_requirement.title.as_ref() {
                                self.errors.push(DependWithWrongTitle {
                                    upper: Rc::clone(upper_requirement),
                                    lower: Rc::clone(lower_requirement),
                                    wrong_title: title.into(),
                                    location: depends.location.clone(),
                                });
                            }
                        } else {
                            if lower_artefact.artefact.reference_with_title {
                                self.errors.push(Error::ReferencedWithoutTitle {
                                    referenced: Rc::clone(lower_requirement),
                                    location: depends.location.clone(),
                                });
                            }
                        }
""", """                        let problem = check_title(
                            depends,
                            lower_requirement,
                            lower_artefact.artefact.reference_with_title,
                            |wrong_title, location| DependWithWrongTitle {
                                upper: Rc::clone(upper_requirement),
                                lower: Rc::clone(lower_requirement),
                                wrong_title,
                                location,
                            },
                        );
                        self.errors.extend(problem);
"""), (T, """                        if let Some(title) = covers.title.as_ref() {
                            if Some(title) != upper_requirement.title.as_ref() {
                                self.errors.push(CoveredWithWrongTitle {
                                    upper: Rc::clone(upper_requirement),
                                    lower: Rc::clone(lower_requirement),
                                    wrong_title: title.into(),
                                    location: covers.location.clone(),
                                });
                            }
                        } else {
                            if upper_artefact.reference_with_title {
                                self.errors.push(Error::ReferencedWithoutTitle {
                                    referenced: Rc::clone(upper_requirement),
                                    location: covers.location.clone(),
                                });
                            }
                        }
""", """                        let problem = check_title(
                            covers,
                            upper_requirement,
                            upper_artefact.reference_with_title,
                            |wrong_title, location| CoveredWithWrongTitle {
                                upper: Rc::clone(upper_requirement),
                                lower: Rc::clone(lower_requirement),
                                wrong_title,
                                location,
                            },
                        );
                        self.errors.extend(problem);
"""), (T, "impl Tracer {\n    fn new(", """fn check_title(
    reference: &Reference,
    target: &Rc<Requirement>,
    needed: bool,
    wrong: impl FnOnce(String, Location) -> Error,
) -> Option<Error> {
    match &reference.title {
        Some(title) if Some(title) == target.title.as_ref() => None,
        Some(title) => Some(wrong(title.clone(), reference.location.clone())),
        None if needed => Some(Error::ReferencedWithoutTitle {
            referenced: Rc::clone(target),
            location: reference.location.clone(),
        }),
        None => None,
    }
}

impl Tracer {
    fn new("""))
same("r6_tr_local_closure", (T, """            if !is_covered {
                requirement_covered!(DSG_TRACE_UNCOVERED);
                uncovered.push(upper_requirement.id.clone());
            }
            any_req_coverd = any_req_coverd || is_covered;
        }
""", """            let mut note = |covered: bool| {
                if !covered {
                    requirement_covered!(DSG_TRACE_UNCOVERED);
                    uncovered.push(upper_requirement.id.clone());
                }
                any_req_coverd |= covered;
            };
            note(is_covered);
        }
"""))
same("r6_tr_add_split", (T, """                    for cov in &req.covers {
                        match requirements_that_cover.entry(cov.id.clone()) {
                            std::collections::btree_map::Entry::Vacant(cov_entry) => {
                                cov_entry.insert(vec![(Rc::clone(req), cov.clone())]);
                            }
                            std::collections::btree_map::Entry::Occupied(mut cov_entry) => {
                                cov_entry.get_mut().push((Rc::clone(req), cov.clone()))
                            }
                        }
                    }
""", """                    let mut add = |cov: &Reference| {
                        let list: &mut Vec<_> = requirements_that_cover
                            .entry(cov.id.clone())
                            .or_insert_with(Vec::new);
                        list.push((Rc::clone(req), cov.clone()));
                    };
                    for cov in &req.covers {
                        add(cov);
                    }
"""))
same("r6_tr_valid_filter", (T, """            let reference = req.depends.iter().find(|r| &r.id == lower_id);

            if reference.is_none() {
                panic!("");
            }

            let location = reference.unwrap().location.clone();
""", """            let Some(reference) = req.depends.iter().find(|r| r.id == *lower_id) else {
                unreachable!("invalid link exists");
            };
            let location = reference.location.clone();
"""))
same("r6_tr_valid_extend", (T, """        for cov in &self.invalid_covers_links {
            requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
            let (upper_id, lower_id) = cov;

            let (_art_id, req) = &self.req_by_id[lower_id];

            let reference: &Reference = req
                .covers
                .iter()
                .find(|r| &r.id == upper_id)
                .expect("invalid link exists");
            let location = reference.location.clone();

            let err = Error::CoversUnknownRequirement(Rc::clone(req), upper_id.clone(), location);
            log::info!("found problem {err:#?}");
            self.errors.push(err);
        }
""", """        requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
        let req_by_id = &self.req_by_id;
        let problems = self.invalid_covers_links.iter().map(|(upper_id, lower_id)| {
            let req = &req_by_id[lower_id].1;
            let is_it = |r: &&Reference| r.id == *upper_id;
            let reference = req.covers.iter().find(is_it).expect("invalid link exists");
            Error::CoversUnknownRequirement(
                Rc::clone(req),
                upper_id.clone(),
                reference.location.clone(),
            )
        });
        self.errors.extend(problems);
"""))
same("r6_tr_lower_list", (T, """            for lower_id in &relation.lower {
                let lower_artefact = self
                    .traced_artefacts
                    .get_mut(lower_id)
                    .expect("artefacts of relations exist");

                if let Some(lower) = lower_artefact
                    .requirements_that_cover
                    .get(&upper_requirement.id)
                {
                    for (lower_requirement, covers) in lower {
""", """            for lower_id in &relation.lower {
                let Some(lower_artefact) = self.traced_artefacts.get_mut(lower_id) else {
                    panic!("artefacts of relations exist");
                };
                let covering = lower_artefact.requirements_that_cover.get(&upper_requirement.id);

                if let Some(covering) = covering {
                    let mut rest = covering.iter();
                    while let Some((lower_requirement, covers)) = rest.next() {
"""))
same("r6_ld_open_closure", (C, """    for path in &paths {
        requirement_covered!(DSG_ART_FILES);
        match fs::File::open(path) {
            Err(err) => {
                let err = Error::Io(path.into(), err.to_string());
                log::info!("found problem {:#?}", &err);
                errors.push(err)
            }
            Ok(file) => {
                let mut r = io::BufReader::new(file);

                let (r, e) = match config.parser {
                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
                    _ => panic!("unexpected {:?}", config.parser),
                };
                requirements.extend(r);
                errors.extend(e);
            }
        }
    }
""", """    let read = |path: &PathBuf| -> Result<(Vec<Rc<Requirement>>, Vec<Error>), Error> {
        let file = fs::File::open(path).map_err(|err| Error::Io(path.clone(), err.to_string()))?;
        let mut r = io::BufReader::new(file);
        Ok(match config.parser {
            ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
            _ => panic!("unexpected {:?}", config.parser),
        })
    };
    for path in &paths {
        requirement_covered!(DSG_ART_FILES);
        let (r, e) = read(path).unwrap_or_else(|err| {
            log::info!("found problem {:#?}", &err);
            (Vec::new(), vec![err])
        });
        requirements.extend(r);
        errors.extend(e);
    }
"""))
same("r6_ld_dup_closure", (C, """    for req in requirement_vec {
        match requirements.entry(req.id.clone()) {
            btree_map::Entry::Occupied(e) => {
                requirement_covered!(DSG_CTRL_DETECT_DUPLICATE_REQS);
                let err = Error::DuplicateRequirement(Rc::clone(e.get()), req);
                log::info!("found problem {:#?}", &err);
                errors.push(err);
            }
            btree_map::Entry::Vacant(e) => {
                e.insert(req);
            }
        }
    }
""", """    let mut add = |req: Rc<Requirement>| -> Result<(), Error> {
        match requirements.entry(req.id.clone()) {
            btree_map::Entry::Occupied(e) => {
                Err(Error::DuplicateRequirement(Rc::clone(e.get()), req))
            }
            btree_map::Entry::Vacant(e) => {
                e.insert(req);
                Ok(())
            }
        }
    };
    for req in requirement_vec {
        if let Err(err) = add(req) {
            requirement_covered!(DSG_CTRL_DETECT_DUPLICATE_REQS);
            log::info!("found problem {:#?}", &err);
            errors.push(err);
        }
    }
"""))
same("r6_ct_refuse", (C, """        let mut is_root: BTreeMap<&ArtefactId, bool> =
            config.artefacts.iter().map(|ac| (&ac.id, true)).collect();
""", """        let mut is_root: BTreeMap<&ArtefactId, bool> = BTreeMap::new();
        is_root.extend(config.artefacts.iter().map(|ac| (&ac.id, true)));
"""))
same("r6_ct_known_fn", (C, """            let unknown = std::iter::once(&rel.upper)
                .chain(&rel.lower)
                .find(|id| !is_root.contains_key(id));
            if let Some(id) = unknown {
                config_error = Some(ControllerError::Config(format!(
                    "Relation {rel} references unknown artefact {id}"
                )));
            }
            unknown.is_none()
        });
""", """            let known = |id: &ArtefactId| is_root.contains_key(id);
            let unknown = if known(&rel.upper) {
                rel.lower.iter().find(|id| !known(id))
            } else {
                Some(&rel.upper)
            };
            match unknown {
                None => true,
                Some(id) => {
                    let text = format!("Relation {rel} references unknown artefact {id}");
                    config_error = Some(ControllerError::Config(text));
                    false
                }
            }
        });
"""))
same("r6_ct_untitled", (C, """            if reference_with_title {
                errors.extend(
                    requirements
                        .values()
                        .filter(|r| r.title.is_none())
                        .map(|r| Error::RequirementWithoutTitle(Rc::clone(r))),
                );
            }
""", """            let untitled = |r: &Rc<Requirement>| match (reference_with_title, &r.title) {
                (true, None) => Some(Error::RequirementWithoutTitle(r.clone())),
                (_, _) => None,
            };
            errors.extend(requirements.values().filter_map(untitled));
"""))
same("r6_jb_names_try", (C, """        let mut jobs = Vec::new();
        for j in job_names {
            if let Some(job) = self.find_job(j) {
                jobs.push(job);
            } else {
                let err = ControllerError::UnknownJob(j.clone());
                log::info!("found problem {:#?}", &err);
                return Err(err);
            }
        }
        self.run_jobs(&jobs, job_names)
""", """        let find = |name: &String| {
            self.find_job(name)
                .ok_or_else(|| ControllerError::UnknownJob(name.clone()))
        };
        let jobs = job_names
            .iter()
            .map(find)
            .collect::<Result<Vec<&Job>, ControllerError>>()
            .map_err(|err| {
                log::info!("found problem {:#?}", &err);
                err
            })?;
        self.run_jobs(&jobs, job_names)
"""))
same("r6_jb_counts", (C, """            match self.run(job, job_name)? {
                JobSuccess::Success => {}
                JobSuccess::ErrorsDetected => {
                    if job.set_return_code.unwrap_or(true) {
                        requirement_covered!(DSG_CTRL_RETURN_CODE);
                        success = JobSuccess::ErrorsDetected;
                    }
                }
            }
""", """            let counts = || job.set_return_code != Some(false);
            let result = self.run(job, job_name)?;
            if matches!(result, JobSuccess::ErrorsDetected) && counts() {
                requirement_covered!(DSG_CTRL_RETURN_CODE);
                success = result;
            }
"""))
same("r6_jb_run_detect", (C, """        let mut success = JobSuccess::Success;

        let write_res = match &job.query {""", """        let mut success = JobSuccess::Success;
        let mut detected = |found: bool, what: &str| {
            if found {
                success = JobSuccess::ErrorsDetected;
                log::debug!("Job did not succeed because: {what}");
            }
        };

        let write_res = match &job.query {"""), (C, """                if !tg.errors.is_empty() {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Tracing Errors");
                }
                if tg.artefacts.values().any(|art| !art.errors.is_empty()) {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Artefact Parsing Errors");
                }
                if tg
                    .traced_relations
                    .iter()
                    .any(|rel| !rel.uncovered.is_empty())
                {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: uncovered relations");
                }

                if tg.derived.values().any(|a| !a.is_empty()) {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!(
                        "Job did not succeed because: derived Requirements: {:#?}",
                        tg.derived
                    );
                }
""", """                detected(!tg.errors.is_empty(), "Tracing Errors");
                detected(
                    tg.artefacts.values().any(|art| !art.errors.is_empty()),
                    "Artefact Parsing Errors",
                );
                let uncovered = |rel: &TracedRelation| !rel.uncovered.is_empty();
                detected(tg.traced_relations.iter().any(uncovered), "uncovered relations");
                detected(
                    tg.derived.values().any(|a| !a.is_empty()),
                    "derived Requirements",
                );
"""), (C, """                if self
                    .graph
                    .artefacts
                    .values()
                    .any(|art| !art.errors.is_empty())
                {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Artefact Parsing Errors");
                }
                requirement_covered!(DSG_CTRL_FORMAT);
                formatters::requirements""", """                detected(
                    !self.graph.artefacts.values().all(|art| art.errors.is_empty()),
                    "Artefact Parsing Errors",
                );
                requirement_covered!(DSG_CTRL_FORMAT);
                formatters::requirements"""))
same("r6_ag_new_closure", (A, """            for req_id in traced_graph.artefacts[&rel.relation.upper]
                .requirements
                .keys()
            {
                requirements
                    .get_mut(req_id)
                    .unwrap()
                    .depends
                    .insert(&rel.relation, vec![]);
            }
            for lower_art_id in &rel.relation.lower {
                artefacts.get_mut(lower_art_id).unwrap().upper.push(rel);
                for req_id in traced_graph.artefacts[lower_art_id].requirements.keys() {
                    requirements
                        .get_mut(req_id)
                        .unwrap()
                        .covers
                        .insert(&rel.relation, vec![]);
                }
            }
""", """            let ids_of = |art: &ArtefactId| traced_graph.artefacts[art].requirements.keys();
            for req_id in ids_of(&rel.relation.upper) {
                let trace = requirements.get_mut(req_id).unwrap();
                trace.depends.insert(&rel.relation, vec![]);
            }
            for lower_art_id in &rel.relation.lower {
                artefacts.get_mut(lower_art_id).unwrap().upper.push(rel);
                for req_id in ids_of(lower_art_id) {
                    let trace = requirements.get_mut(req_id).unwrap();
                    trace.covers.insert(&rel.relation, vec![]);
                }
            }
"""))
same("r6_gn_line", (G, """    for rel in &traced_graph.traced_relations {
        writeln!(w, "## {}", rel)?;

        for req in &rel.uncovered {
            let req = &traced_graph.artefacts[&rel.relation.upper].requirements[req];
            writeln!(w, "{}: {} Uncovered", req.location, req.id)?;
        }
    }

    writeln!(w, "Derived Requirement")?;
    for (art, derived) in &traced_graph.derived {
        let artefact = &traced_graph.artefacts[art];
        writeln!(w, "## {}", art)?;
        for req_id in derived {
            let req = &artefact.requirements[req_id];
            writeln!(w, "{}: {} Derived", req.location, req.id)?;
        }
    }

    Ok(())
""", """    let line = |w: &mut dyn io::Write, art, req, what: &str| {
        let artefact: &crate::models::Artefact = &traced_graph.artefacts[art];
        let req = &artefact.requirements[req];
        writeln!(w, "{}: {} {}", req.location, req.id, what)
    };

    for rel in &traced_graph.traced_relations {
        writeln!(w, "## {}", rel)?;
        rel.uncovered
            .iter()
            .try_for_each(|req| line(w, &rel.relation.upper, req, "Uncovered"))?;
    }

    writeln!(w, "Derived Requirement")?;
    for (art, derived) in &traced_graph.derived {
        writeln!(w, "## {}", art)?;
        derived.iter().try_for_each(|req| line(w, art, req, "Derived"))?;
    }

    Ok(())
"""))
same("r6_gn_untitled", (G, """                    upper.id,
                    upper.title.as_ref().unwrap_or(&"<no title>".to_owned()),
""", """                    upper.id,
                    upper.title.as_deref().unwrap_or("<no title>"),
"""), (G, """                    lower.id,
                    lower.title.as_ref().unwrap_or(&"<no title>".to_owned()),
""", """                    lower.id,
                    match &lower.title {
                        Some(title) => title.as_str(),
                        None => "<no title>",
                    },
"""))
same("r6_md_refs_fn", (MD, """    if !req.covers.is_empty() {
        writeln!(w, "\\nCovers:")?;
        for c in &req.covers {
            if let Some(title) = &c.title {
                writeln!(w, "*   {}: {}", c.id, title)?;
            } else {
                writeln!(w, "*   {}", c.id,)?;
            }
        }
    }
    if !req.depends.is_empty() {
        writeln!(w, "\\nDepends:")?;
        for d in &req.depends {
            if let Some(title) = &d.title {
                writeln!(w, "*   {}: {}", d.id, title)?;
            } else {
                writeln!(w, "*   {}", d.id,)?;
            }
        }
    }
""", """    for (label, references) in [("Covers", &req.covers), ("Depends", &req.depends)] {
        if references.is_empty() {
            continue;
        }
        writeln!(w, "\\n{label}:")?;
        for r in references {
            match r.title.as_deref() {
                Some(title) => writeln!(w, "*   {}: {}", r.id, title)?,
                None => writeln!(w, "*   {}", r.id)?,
            }
        }
    }
"""))
same("r6_md_link_closure", (MD, """    if let Some(title) = &req.title {
        let replaced = format!("{}-{}", req.id, title);
        let replaced = replaced.to_lowercase();
        let replaced = REPLACE_WITH_DASH.replace_all(&replaced, "-");
        let replaced = REMOVE.replace_all(&replaced, "");

        format!("[{}](#{} \\"{}\\")", req.id, replaced, title)
    } else {
        let replaced = &req.id;
        let replaced = replaced.to_string().to_lowercase();
        let replaced = REPLACE_WITH_DASH.replace_all(&replaced, "-");
        let replaced = REMOVE.replace_all(&replaced, "");

        format!("[{}](#{})", req.id, replaced)
    }
""", """    let anchor = |text: String| -> String {
        let text = text.to_lowercase();
        let text = REPLACE_WITH_DASH.replace_all(&text, "-");
        REMOVE.replace_all(&text, "").into_owned()
    };
    match &req.title {
        Some(title) => {
            let target = anchor(format!("{}-{}", req.id, title));
            format!("[{}](#{} \\"{}\\")", req.id, target, title)
        }
        None => format!("[{}](#{})", req.id, anchor(req.id.to_string())),
    }
"""))
same("r6_rs_scoped", (PR, """    fn visit_item_fn(&mut self, node: &'ast ItemFn) {
        self.scope.push(node.sig.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.sig.ident.span()));
        visit::visit_item_fn(self, node);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();
    }

    fn visit_impl_item_method(&mut self, node: &'ast syn::ImplItemMethod) {
        self.scope.push(node.sig.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.sig.ident.span()));
        visit::visit_impl_item_method(self, node);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();
    }
""", """    fn visit_item_fn(&mut self, node: &'ast ItemFn) {
        self.within(&node.sig.ident, |p| visit::visit_item_fn(p, node));
    }

    fn visit_impl_item_method(&mut self, node: &'ast syn::ImplItemMethod) {
        self.within(&node.sig.ident, |p| visit::visit_impl_item_method(p, node));
    }
"""), (PR, "impl Parser<'_> {\n", """impl Parser<'_> {
    fn within(&mut self, ident: &proc_macro2::Ident, inner: impl FnOnce(&mut Self)) {
        self.scope.push(ident.to_string());
        self.locations
            .push(location_from_span(self.path, &ident.span()));
        inner(self);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();
    }

"""))
same("r6_rs_report", (PR, """            0 => {
                // requirement_covered!()
                let err = Error::Format(
                    macro_location.clone(),
                    "requirement_covered!() has no arguments".to_owned(),
                );
                log::info!("found problem {:#?}", &err);
                self.errors.push(err);
                None
            }
""", """            0 => {
                // requirement_covered!()
                self.report(
                    macro_location.clone(),
                    "requirement_covered!() has no arguments",
                );
                None
            }
"""), (PR, """                        let err = Error::Format(
                            location_from_span(self.path, &tokens[2].span()),
                            "requirement_covered!() 2nd argument is not String".to_owned(),
                        );
                        log::info!("found problem {:#?}", &err);
                        self.errors.push(err);
                        None
""", """                        let location = location_from_span(self.path, &tokens[2].span());
                        self.report(location, "requirement_covered!() 2nd argument is not String");
                        None
"""), (PR, "impl Parser<'_> {\n", """impl Parser<'_> {
    fn report(&mut self, location: Location, text: impl Into<String>) {
        let err = Error::Format(location, text.into());
        log::info!("found problem {:#?}", &err);
        self.errors.push(err);
    }

"""))
same("r6_rs_early", (PR, """    let requirements = Vec::new();
    let mut errors = Vec::new();

    let mut source = String::new();
    match reader.read_to_string(&mut source) {
        Err(e) => {
            let err = Error::io(path, &e);
            log::info!("found problem {:#?}", &err);
            errors.push(err);
        }
        Ok(_bytes) => match parse_file(&source) {
            Err(e) => {
                let pos = e.span().start();
                let err = Error::Format(
                    Location::new_with_line_and_column(path.into(), pos.line, pos.column),
                    e.to_string(),
                );
                log::info!("found problem {:#?}", &err);
                errors.push(err);
            }
            Ok(file) => {
                let mut p = Parser {
                    requirements,
                    errors,
                    path,
                    scope: Vec::new(),
                    locations: Vec::new(),
                };
                p.visit_file(&file);
                return (p.requirements, p.errors);
            }
        },
    }

    (requirements, errors)
}
""", """    let failed = |err: Error| {
        log::info!("found problem {:#?}", &err);
        (Vec::new(), vec![err])
    };

    let mut source = String::new();
    if let Err(e) = reader.read_to_string(&mut source) {
        return failed(Error::io(path, &e));
    }
    let file = match parse_file(&source) {
        Ok(file) => file,
        Err(e) => {
            let pos = e.span().start();
            let location = Location::new_with_line_and_column(path.into(), pos.line, pos.column);
            return failed(Error::Format(location, e.to_string()));
        }
    };
    let mut p = Parser {
        requirements: Vec::new(),
        errors: Vec::new(),
        path,
        scope: Vec::new(),
        locations: Vec::new(),
    };
    p.visit_file(&file);
    (p.requirements, p.errors)
}
"""))
same("r6_rs_find_index", (PR, """            match self.requirements.iter_mut().find(|req| req.id == id) {
                Some(req) => {
                    Rc::get_mut(req).unwrap().covers.push(reference);
                }
                None => {
                    let covers = vec![reference];
                    let req = Requirement {
                        id,
                        location,
                        covers,
                        depends: vec![],
                        tags: vec![],
                        attributes: BTreeMap::new(),
                        title: None,
                    };
                    let req = Rc::new(req);
                    self.requirements.push(req);
                }
            }
""", """            let same_item = |req: &Rc<Requirement>| req.id == id;
            if let Some(i) = self.requirements.iter().position(same_item) {
                let req = Rc::get_mut(&mut self.requirements[i]).unwrap();
                req.covers.push(reference);
            } else {
                self.requirements.push(Rc::new(Requirement {
                    id,
                    location,
                    covers: vec![reference],
                    depends: vec![],
                    tags: vec![],
                    attributes: BTreeMap::new(),
                    title: None,
                }));
            }
"""))
same("r6_po_id_fn", (PO, """    let id = {
        if let Some(stem) = path.file_stem() {
            stem.to_string_lossy().to_string().into()
        } else {
            let err = Error::Config(format!(
                "file for 'MonoReq' parser `{} has no stem",
                path.display(),
            ));
            log::info!("found problem {:#?}", &err);
            errors.push(err);

            "README".into()
        }
    };
""", """    let mut no_stem = || {
        let err = Error::Config(format!(
            "file for 'MonoReq' parser `{} has no stem",
            path.display(),
        ));
        log::info!("found problem {:#?}", &err);
        errors.push(err);
        "README".to_owned()
    };
    let id = path
        .file_stem()
        .map_or_else(&mut no_stem, |stem| stem.to_string_lossy().into_owned())
        .into();
"""))
same("r6_pm_event_fn", (PM, """            Ok(_) => {
                if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                    req_line = r;
                    evt = Event::Req(&req_line);
                } else if HEADING_LINE.is_match(&line) {
                    evt = Event::Heading;
                } else {
                    evt = Event::Line(&line);
                }
            }
""", """            Ok(_) => {
                let captures = REQUIREMENT_LINE.captures(&line);
                evt = match captures {
                    Some(r) => {
                        req_line = r;
                        Event::Req(&req_line)
                    }
                    None if HEADING_LINE.is_match(&line) => Event::Heading,
                    None => Event::Line(&line),
                };
            }
"""))

# ---- seventh round: larger restructurings
same("r7_tr_late_derived", (T, """                        requirement_covered!(DSG_TRACE_DERIVED);
                        lower_artefact.derived.remove(&lower_requirement.id);
                        covered.push(Coverage {
                            upper: upper_requirement.id.clone(),
                            lower: lower_requirement.id.clone(),
                            location: depends.location.clone(),
                            direction: CoverageDirection::Downwards,
                        });
""", """                        covered.push(Coverage {
                            upper: upper_requirement.id.clone(),
                            lower: lower_requirement.id.clone(),
                            location: depends.location.clone(),
                            direction: CoverageDirection::Downwards,
                        });
                        requirement_covered!(DSG_TRACE_DERIVED);
                        let derived = &mut lower_artefact.derived;
                        if derived.contains(&lower_requirement.id) {
                            derived.remove(&lower_requirement.id);
                        }
"""))
same("r7_tr_links_first", (T, """                    req_entry.insert((artefact.id.clone(), Rc::clone(req)));
                    // mark the new requirement's covers and depends links as invalid;
                    // later, in add_coverage each covered connection is removed.
                    for cov in &req.covers {
                        requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
                        self.invalid_covers_links
                            .insert((cov.id.clone(), req.id.clone()));
                    }
                    for dep in &req.depends {
                        requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
                        self.invalid_depends_links
                            .insert((req.id.clone(), dep.id.clone()));
                    }
""", """                    req_entry.insert((artefact.id.clone(), Rc::clone(req)));
                    requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
                    let me = &req.id;
                    let up = |r: &Reference| (r.id.clone(), me.clone());
                    let down = |r: &Reference| (me.clone(), r.id.clone());
                    self.invalid_covers_links.extend(req.covers.iter().map(up));
                    self.invalid_depends_links.extend(req.depends.iter().map(down));
"""))
same("r7_tr_new_struct", (T, """        let mut tracer = Tracer {
            traced_artefacts: BTreeMap::new(),
            relations: Vec::new(),
            errors: Vec::new(),
            req_by_id: BTreeMap::new(),
            invalid_depends_links: BTreeSet::new(),
            invalid_covers_links: BTreeSet::new(),
        };

        for a in graph.artefacts.values() {
            tracer.add_artefact(a);
        }
        for rel in &graph.relations {
            tracer.trace_relation(rel);
        }

        tracer.validate();
        tracer
""", """        let mut tracer = Tracer::empty();
        graph.artefacts.values().for_each(|a| tracer.add_artefact(a));
        graph.relations.iter().for_each(|rel| tracer.trace_relation(rel));
        tracer.validate();
        tracer
"""), (T, "    fn data(self) -> TracedGraph {", """    fn empty() -> Self {
        Self {
            traced_artefacts: BTreeMap::default(),
            relations: vec![],
            errors: vec![],
            req_by_id: BTreeMap::default(),
            invalid_depends_links: BTreeSet::default(),
            invalid_covers_links: BTreeSet::default(),
        }
    }

    fn data(self) -> TracedGraph {"""))
same("r7_tr_cov_fn", (T, """                        covered.push(Coverage {
                            upper: upper_requirement.id.clone(),
                            lower: lower_requirement.id.clone(),
                            location: depends.location.clone(),
                            direction: CoverageDirection::Downwards,
                        });
""", """                        covered.push(coverage(
                            upper_requirement,
                            lower_requirement,
                            depends,
                            CoverageDirection::Downwards,
                        ));
"""), (T, """                        covered.push(Coverage {
                            upper: upper_requirement.id.clone(),
                            lower: lower_requirement.id.clone(),
                            location: covers.location.clone(),
                            direction: CoverageDirection::Upwards,
                        });
""", """                        covered.push(coverage(
                            upper_requirement,
                            lower_requirement,
                            covers,
                            CoverageDirection::Upwards,
                        ));
"""), (T, "#[derive(Debug)]\nstruct TracedArtefact {", """fn coverage(
    upper: &Requirement,
    lower: &Requirement,
    reference: &Reference,
    direction: CoverageDirection,
) -> Coverage {
    let Requirement { id: upper, .. } = upper;
    let Requirement { id: lower, .. } = lower;
    Coverage {
        upper: upper.clone(),
        lower: lower.clone(),
        location: reference.location.clone(),
        direction,
    }
}

#[derive(Debug)]
struct TracedArtefact {"""))
same("r7_jb_open_output", (C, """        let stdout = io::stdout();
        let mut out: Box<dyn io::Write>;

        if job.file.as_os_str() == "-" {
            out = Box::new(stdout.lock());
            log::info!("writing {job_name:?} to stdout");
        } else {
            let path = if job.file.is_absolute() {
                &job.file
            } else {
                &self.base_dir.join(&job.file)
            };
            if let Some(p) = &path.parent() {
                std::fs::create_dir_all(p)
                    .map_err(|e| ControllerError::Io(p.to_path_buf(), e.to_string()))?;
            }

            let file = fs::File::create(&path)
                .map_err(|e| ControllerError::Io(path.clone(), e.to_string()))?;
            out = Box::new(file);
            log::info!("writing {} to {}", &job_name, path.display());
        }
""", """        let mut out = self.open_output(job, job_name)?;
"""), (C, "    pub fn run(&self, job: &Job,", """    fn open_output(
        &self,
        job: &Job,
        job_name: &str,
    ) -> Result<Box<dyn io::Write>, ControllerError> {
        let io_error =
            |path: &Path, e: io::Error| ControllerError::Io(path.to_path_buf(), e.to_string());
        if job.file.as_os_str() == "-" {
            log::info!("writing {job_name:?} to stdout");
            return Ok(Box::new(io::stdout().lock()));
        }
        let path = self.base_dir.join(&job.file);
        if let Some(dir) = path.parent() {
            fs::create_dir_all(dir).map_err(|e| io_error(dir, e))?;
        }
        let file = fs::File::create(&path).map_err(|e| io_error(&path, e))?;
        log::info!("writing {} to {}", &job_name, path.display());
        Ok(Box::new(file))
    }

    pub fn run(&self, job: &Job,"""))
same("r7_jb_reasons", (C, """                if !tg.errors.is_empty() {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Tracing Errors");
                }
                if tg.artefacts.values().any(|art| !art.errors.is_empty()) {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Artefact Parsing Errors");
                }
                if tg
                    .traced_relations
                    .iter()
                    .any(|rel| !rel.uncovered.is_empty())
                {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: uncovered relations");
                }

                if tg.derived.values().any(|a| !a.is_empty()) {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!(
                        "Job did not succeed because: derived Requirements: {:#?}",
                        tg.derived
                    );
                }
""", """                let mut reasons = Vec::new();
                if !tg.errors.is_empty() {
                    reasons.push("Tracing Errors");
                }
                if tg.artefacts.values().any(|art| !art.errors.is_empty()) {
                    reasons.push("Artefact Parsing Errors");
                }
                if tg.traced_relations.iter().any(|rel| !rel.uncovered.is_empty()) {
                    reasons.push("uncovered relations");
                }
                if tg.derived.values().any(|a| !a.is_empty()) {
                    reasons.push("derived Requirements");
                }
                for reason in &reasons {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: {reason}");
                }
"""))
same("r7_jb_problem_list", (C, """                if !tg.errors.is_empty() {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Tracing Errors");
                }
                if tg.artefacts.values().any(|art| !art.errors.is_empty()) {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Artefact Parsing Errors");
                }
                if tg
                    .traced_relations
                    .iter()
                    .any(|rel| !rel.uncovered.is_empty())
                {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: uncovered relations");
                }

                if tg.derived.values().any(|a| !a.is_empty()) {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!(
                        "Job did not succeed because: derived Requirements: {:#?}",
                        tg.derived
                    );
                }
""", """                let checks = [
                    ("Tracing Errors", !tg.errors.is_empty()),
                    (
                        "Artefact Parsing Errors",
                        tg.artefacts.values().any(|art| !art.errors.is_empty()),
                    ),
                    (
                        "uncovered relations",
                        tg.traced_relations.iter().any(|rel| !rel.uncovered.is_empty()),
                    ),
                    ("derived Requirements", tg.derived.values().any(|a| !a.is_empty())),
                ];
                for (reason, found) in checks {
                    if found {
                        success = JobSuccess::ErrorsDetected;
                        log::debug!("Job did not succeed because: {reason}");
                    }
                }
"""))
same("r7_ld_single_split", (C, """    let path = base_dir.join(&config.paths[0]);

    requirement_covered!(DSG_ART_FILES);
    match fs::File::open(&path) {
        Err(err) => {
            let err = Error::Io(path.clone(), err.to_string());
            log::info!("found problem {:#?}", &err);
            (vec![path], vec![], vec![err])
        }
        Ok(file) => {
            let mut r = io::BufReader::new(file);

            let (reqs, errs) = match &config.parser {""", """    let path = base_dir.join(&config.paths[0]);

    requirement_covered!(DSG_ART_FILES);
    let opened = fs::File::open(&path).map(io::BufReader::new);
    match opened {
        Err(err) => {
            let err = Error::io(&path, &err);
            log::info!("found problem {:#?}", &err);
            (vec![path], vec![], vec![err])
        }
        Ok(mut r) => {
            let (reqs, errs) = match &config.parser {"""))
same("r7_mo_lines", (PO, "    for (no, line) in reader.lines().enumerate() {\n", "    let mut lines = reader.lines();\n    let mut no = 0;\n    while let Some(line) = lines.next() {\n"),
     (PO, "                    let location = Location::new_with_line_no(path.to_path_buf(), no + 1);\n", "                    let location = Location::new_with_line_no(path.to_path_buf(), no);\n"),
     (PO, "        match line {\n            Ok(line) => {\n                if title.is_none() {", "        no += 1;\n        match line {\n            Ok(line) => {\n                if title.is_none() {"))
same("r7_rs_pairs", (PR, """        self.scope.push(node.sig.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.sig.ident.span()));
        visit::visit_trait_item_method(self, node);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();
""", """        let name = &node.sig.ident;
        let location = location_from_span(self.path, &name.span());
        self.locations.push(location);
        self.scope.push(name.to_string());
        visit::visit_trait_item_method(self, node);
        self.scope.truncate(self.scope.len() - 1);
        self.locations.truncate(self.locations.len() - 1);
"""))
same("r7_rs_take", (PR, """        self.scope.push(node.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.ident.span()));
        visit::visit_item_mod(self, node);
        self.locations.pop().unwrap();
        self.scope.pop().unwrap();
""", """        self.scope.push(node.ident.to_string());
        self.locations
            .push(location_from_span(self.path, &node.ident.span()));
        visit::visit_item_mod(self, node);
        let _ = self.locations.pop();
        let _ = self.scope.pop();
"""))
same("r7_md_methods", (PM, """fn commit_link_attr(context: &mut Context<'_>, attr: String, vec: Vec<Reference>) {
    if attr == ATTR_COVERS {
        context.req_under_construction.as_mut().unwrap().covers = vec;
    } else if attr == ATTR_DEPENDS {
        context.req_under_construction.as_mut().unwrap().depends = vec;
    } else {
        panic!();
    }
}
""", """fn commit_link_attr(context: &mut Context<'_>, attr: String, vec: Vec<Reference>) {
    let is_covers = attr == ATTR_COVERS;
    if !is_covers && attr != ATTR_DEPENDS {
        panic!();
    }
    let req = context.req_under_construction.as_deref_mut().unwrap();
    let list = if is_covers { &mut req.covers } else { &mut req.depends };
    *list = vec;
}
"""))
same("r7_md_text_merge", (PM, """        State::CollectDesc(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
        }
        State::CollectDescNl(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
        }
        State::CollectTextAttr(attr, val) => {
            commit_attr(context, attr, val);
        }
        State::CollectRefLink(attr, vec) => {
            commit_link_attr(context, attr, vec);
        }
        _ => {}
    }
    add_req(context, req_line)
""", """        State::CollectDesc(text) | State::CollectDescNl(text) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), text);
        }
        State::CollectTextAttr(attr, text) => commit_attr(context, attr, text),
        State::CollectRefLink(attr, references) => commit_link_attr(context, attr, references),
        State::LookForReq | State::LookForDesc | State::LookForAttr => (),
    }
    add_req(context, req_line)
"""))
same("r7_md_req_build", (PM, "    let id = req_line[2].into();\n    let title = Some(req_line[3].trim().to_owned());\n", "    let part = |i: usize| req_line.get(i).unwrap().as_str();\n    let id = part(2).into();\n    let title = Some(part(3).trim().to_string());\n"))
same("r7_md_ref_opt", (PM, """                let id = ref_link[1].into();
                let title = ref_link.get(2).map(|m| m.as_str().to_owned());
                let location = context.location();

                vec.push(Reference {
                    id,
                    title,
                    location,
                });
                State::CollectRefLink(attr, vec)
            } else if""", """                let text = |i| ref_link.get(i).map(|m| m.as_str().to_owned());
                let reference = Reference {
                    location: context.location(),
                    title: text(2),
                    id: RequirementId::from(text(1).expect("a reference has an id")),
                };
                vec.extend(Some(reference));
                State::CollectRefLink(attr, vec)
            } else if"""), (PM, "use crate::models::Requirement;\n", "use crate::models::Requirement;\nuse crate::models::RequirementId;\n"))
same("r7_fmt_buffer", (MD, """pub fn requirement(req: &Requirement, w: &mut impl io::Write) -> io::Result<()> {
    writeln!(
        w,
        "\\n### {}: {}\\n\\nOrigin: {}",
        req.id,
        req.title.as_ref().unwrap_or(&String::new()),
        location_link(&req.location)
    )?;
""", """pub fn requirement(req: &Requirement, w: &mut impl io::Write) -> io::Result<()> {
    let title = req.title.as_deref().unwrap_or_default();
    writeln!(w)?;
    writeln!(w, "### {}: {}", req.id, title)?;
    writeln!(w)?;
    writeln!(w, "Origin: {}", location_link(&req.location))?;
"""))
same("r7_fmt_up_down", (MD, """        let mut derived = true;
        for (relation, coverages) in &req.covers {
            writeln!(w, "*   {}", relation)?;
            for (upper_requirement, reference_location) in coverages {
                writeln!(w, "    *   {}", requirement_link(upper_requirement),)?;
                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;

                derived = false;
            }
        }
        if derived {
            writeln!(w, "    *   Derived")?;
        }
""", """        let mut put = |requirement: &Requirement, location: &Location| {
            writeln!(w, "    *   {}", requirement_link(requirement))?;
            writeln!(w, "        Reference: {}", location_link(location))
        };
        let _ = &mut put;
        for (relation, coverages) in &req.covers {
            writeln!(w, "*   {}", relation)?;
            for &(upper_requirement, reference_location) in coverages {
                writeln!(w, "    *   {}", requirement_link(upper_requirement))?;
                writeln!(w, "        Reference: {}", location_link(reference_location))?;
            }
        }
        if req.covers.values().all(|coverages| coverages.is_empty()) {
            writeln!(w, "    *   Derived")?;
        }
"""))
same("r7_tags_closure", (TG, """    for req in graph
        .artefacts
        .values()
        .flat_map(|art| art.requirements.values())
    {
        match req.location.location_in_file {
            Some(LocationInFile::Line(line) | LocationInFile::LineAndColumn(line, _)) => {
                lines.push(format!(
                    "{}\\t{}\\t{};\\"\\tr\\n",
                    req.id,
                    req.location.file.display(),
                    line,
                ));
            }
            Some(LocationInFile::String(_)) | None => {}
        }
    }
""", """    let line_of = |location: &crate::models::Location| match location.location_in_file {
        Some(LocationInFile::Line(line)) => Some(line),
        Some(LocationInFile::LineAndColumn(line, _)) => Some(line),
        _ => None,
    };
    for art in graph.artefacts.values() {
        for req in art.requirements.values() {
            let Some(line) = line_of(&req.location) else {
                continue;
            };
            let file = req.location.file.display();
            lines.push(format!("{}\\t{}\\t{};\\"\\tr\\n", req.id, file, line));
        }
    }
"""))
same("r7_mn_split", (M, """    let config = get_config(&opt)?;
    let controller = Controller::new(config, &opt.base_dir);
    run_cli_jobs(&controller, &opt)
""", """    get_config(&opt).and_then(|config| {
        let controller = Controller::new(config, &opt.base_dir);
        run_cli_jobs(&controller, &opt)
    })
"""))
same("r7_mn_rc2", (M, """    match r {
        Err(e) => {
            log::error!("{}", e);
            eprintln!("{e}");
            2
        }
        Ok(JobSuccess::Success) => 0,
        Ok(JobSuccess::ErrorsDetected) => 1,
    }
""", """    let code = |success: JobSuccess| i32::from(matches!(success, JobSuccess::ErrorsDetected));
    r.map(code).unwrap_or_else(|e| {
        log::error!("{}", e);
        eprintln!("{e}");
        2
    })
"""))

# ---- eighth round
same("r8_tr_flags_count", (T, """        let mut any_req_coverd = false;
        let mut covered: Vec<Coverage> = Vec::new();
""", """        let mut covered_requirements = 0usize;
        let mut covered: Vec<Coverage> = Vec::new();
"""), (T, """            if !is_covered {
                requirement_covered!(DSG_TRACE_UNCOVERED);
                uncovered.push(upper_requirement.id.clone());
            }
            any_req_coverd = any_req_coverd || is_covered;
        }

        if !any_req_coverd {
""", """            if is_covered {
                covered_requirements += 1;
            } else {
                requirement_covered!(DSG_TRACE_UNCOVERED);
                uncovered.push(upper_requirement.id.clone());
            }
        }

        if covered_requirements == 0 {
"""))
same("r8_tr_covered_empty", (T, """        let mut any_req_coverd = false;
""", ""), (T, """            any_req_coverd = any_req_coverd || is_covered;
        }

        if !any_req_coverd {
""", """        }

        let unused = covered.is_empty();
        if unused {
"""))
same("r8_tr_title_fn", (T, """                        if let Some(title) = depends.title.as_ref() {
                            if Some(title) != lower_requirement.title.as_ref() {
                                self.errors.push(DependWithWrongTitle {
                                    upper: Rc::clone(upper_requirement),
                                    lower: Rc::clone(lower_requirement),
                                    wrong_title: title.into(),
                                    location: depends.location.clone(),
                                });
                            }
                        } else {
                            if lower_artefact.artefact.reference_with_title {
                                self.errors.push(Error::ReferencedWithoutTitle {
                                    referenced: Rc::clone(lower_requirement),
                                    location: depends.location.clone(),
                                });
                            }
                        }
""", """                        let strict = lower_artefact.artefact.reference_with_title;
                        let problem = match (&depends.title, &lower_requirement.title) {
                            (Some(said), Some(real)) if said == real => None,
                            (Some(said), _) => Some(DependWithWrongTitle {
                                upper: Rc::clone(upper_requirement),
                                lower: Rc::clone(lower_requirement),
                                wrong_title: said.clone(),
                                location: depends.location.clone(),
                            }),
                            (None, _) if strict => Some(Error::ReferencedWithoutTitle {
                                referenced: Rc::clone(lower_requirement),
                                location: depends.location.clone(),
                            }),
                            (None, _) => None,
                        };
                        self.errors.extend(problem);
"""))
same("r8_tr_validate_filter", (T, """            let reference: &Reference = req
                .covers
                .iter()
                .find(|r| &r.id == upper_id)
                .expect("invalid link exists");
            let location = reference.location.clone();
""", """            let mut location = None;
            for r in &req.covers {
                if &r.id == upper_id {
                    location = Some(r.location.clone());
                    break;
                }
            }
            let location = location.expect("invalid link exists");
"""))
same("r8_tr_validate_drain", (T, """        for dep in &self.invalid_depends_links {
            requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
            let (upper_id, lower_id) = dep;
""", """        for (upper_id, lower_id) in self.invalid_depends_links.iter() {
            requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
"""), (T, """            let reference = req.depends.iter().find(|r| &r.id == lower_id);

            if reference.is_none() {
                panic!("");
            }

            let location = reference.unwrap().location.clone();
""", """            let mut named = req.depends.iter().filter(|r| &r.id == lower_id);
            let location = match named.next() {
                Some(first) => first.location.clone(),
                None => panic!(""),
            };
"""))
same("r8_tr_add_ordefault", (T, """                    for cov in &req.covers {
                        match requirements_that_cover.entry(cov.id.clone()) {
                            std::collections::btree_map::Entry::Vacant(cov_entry) => {
                                cov_entry.insert(vec![(Rc::clone(req), cov.clone())]);
                            }
                            std::collections::btree_map::Entry::Occupied(mut cov_entry) => {
                                cov_entry.get_mut().push((Rc::clone(req), cov.clone()))
                            }
                        }
                    }
""", """                    for cov in &req.covers {
                        if let Some(list) = requirements_that_cover.get_mut(&cov.id) {
                            let list: &mut Vec<_> = list;
                            list.push((Rc::clone(req), cov.clone()));
                            continue;
                        }
                        requirements_that_cover
                            .insert(cov.id.clone(), vec![(Rc::clone(req), cov.clone())]);
                    }
"""))
same("r8_tr_data_loop", (T, """        let (artefacts, derived) = artefacts
            .into_iter()
            .map(|(id, ta)| {
                (
                    (id.clone(), ta.artefact),
                    (id, ta.derived.into_iter().collect()),
                )
            })
            .unzip();
""", """        let derived = artefacts
            .iter()
            .map(|(id, ta)| (id.clone(), ta.derived.iter().cloned().collect()))
            .collect();
        let artefacts = artefacts.into_values().map(|ta| (ta.artefact.id.clone(), ta.artefact)).collect();
"""))
same("r8_ag_entry_default", (A, """        let mut requirements: BTreeMap<&'g RequirementId, RequirementTrace<'g>> = traced_graph
            .artefacts
            .values()
            .flat_map(|a| {
                a.requirements.iter().map(|(id, req)| {
                    (
                        id,
                        RequirementTrace {
                            covers: BTreeMap::new(),
                            depends: BTreeMap::new(),
                            requirement: req,
                            artefact: a,
                        },
                    )
                })
            })
            .collect();
""", """        let mut requirements: BTreeMap<&'g RequirementId, RequirementTrace<'g>> = BTreeMap::new();
        for artefact in traced_graph.artefacts.values() {
            for (id, requirement) in &artefact.requirements {
                let bundle = RequirementTrace {
                    covers: BTreeMap::new(),
                    depends: BTreeMap::new(),
                    artefact,
                    requirement,
                };
                requirements.insert(id, bundle);
            }
        }
"""))
same("r8_ag_one_cov_fn", (A, """                requirements
                    .get_mut(&cov.upper)
                    .unwrap()
                    .depends
                    .get_mut(&rel.relation)
                    .unwrap()
                    .push((lower_req, &cov.location));

                requirements
                    .get_mut(&cov.lower)
                    .unwrap()
                    .covers
                    .get_mut(&rel.relation)
                    .unwrap()
                    .push((upper_req, &cov.location));
""", """                let relation = &rel.relation;
                let location = &cov.location;
                let up = requirements.get_mut(&cov.upper).unwrap();
                let list = up.depends.get_mut(relation).unwrap();
                list.push((lower_req, location));

                let down = requirements.get_mut(&cov.lower).unwrap();
                if let Some(list) = down.covers.get_mut(relation) {
                    list.push((upper_req, location));
                } else {
                    unreachable!("every relation has its list");
                }
"""))
same("r8_ag_values_mut", (A, """            for req_id in traced_graph.artefacts[&rel.relation.upper]
                .requirements
                .keys()
            {
                requirements
                    .get_mut(req_id)
                    .unwrap()
                    .depends
                    .insert(&rel.relation, vec![]);
            }
""", """            let upper = &traced_graph.artefacts[&rel.relation.upper];
            upper.requirements.keys().for_each(|req_id| {
                let bundle = requirements.get_mut(req_id).unwrap();
                bundle.depends.insert(&rel.relation, Vec::new());
            });
"""))
same("r8_gn_title_fn", (FM.replace("mod.rs", "gnuerr.rs"), """                    upper.id,
                    upper.title.as_ref().unwrap_or(&"<no title>".to_owned()),
""", """                    upper.id,
                    upper.title.as_deref().unwrap_or("<no title>"),
"""))
same("r8_gn_sections", (FM.replace("mod.rs", "gnuerr.rs"), """    writeln!(w, "# Parsing Errors")?;
    errors(
        traced_graph
            .artefacts
            .values()
            .flat_map(|a| a.errors.iter()),
        w,
    )?;
""", """    writeln!(w, "# Parsing Errors")?;
    for artefact in traced_graph.artefacts.values() {
        errors(artefact.errors.iter(), w)?;
    }
"""))
same("r8_gn_uncovered_fn", (FM.replace("mod.rs", "gnuerr.rs"), """        for req in &rel.uncovered {
            let req = &traced_graph.artefacts[&rel.relation.upper].requirements[req];
            writeln!(w, "{}: {} Uncovered", req.location, req.id)?;
        }
""", """        let upper = &traced_graph.artefacts[&rel.relation.upper];
        rel.uncovered
            .iter()
            .map(|id| &upper.requirements[id])
            .try_for_each(|req| writeln!(w, "{}: {} Uncovered", req.location, req.id))?;
"""))
same("r8_gn_derived_line", (FM.replace("mod.rs", "gnuerr.rs"), """            let req = &artefact.requirements[req_id];
            writeln!(w, "{}: {} Derived", req.location, req.id)?;
""", """            let req = &artefact.requirements[req_id];
            let line = format!("{}: {} Derived\\n", req.location, req.id);
            w.write_all(line.as_bytes())?;
"""))
same("r8_ct_jobs_collect", (C, """        let mut jobs = Vec::new();
        for j in job_names {
            if let Some(job) = self.find_job(j) {
                jobs.push(job);
            } else {
                let err = ControllerError::UnknownJob(j.clone());
                log::info!("found problem {:#?}", &err);
                return Err(err);
            }
        }
        self.run_jobs(&jobs, job_names)
""", """        let jobs = job_names
            .iter()
            .map(|j| {
                self.find_job(j).ok_or_else(|| {
                    let err = ControllerError::UnknownJob(j.clone());
                    log::info!("found problem {:#?}", &err);
                    err
                })
            })
            .collect::<Result<Vec<_>, _>>()?;
        self.run_jobs(&jobs, job_names)
"""))
same("r8_ct_problem_flag", (C, """                if tg.artefacts.values().any(|art| !art.errors.is_empty()) {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Artefact Parsing Errors");
                }
                if tg
""", """                let failed: Vec<_> = tg
                    .artefacts
                    .values()
                    .filter(|art| !art.errors.is_empty())
                    .map(|art| art.id.clone())
                    .collect();
                if !failed.is_empty() {
                    success = JobSuccess::ErrorsDetected;
                    log::debug!("Job did not succeed because: Parsing Errors in {failed:?}");
                }
                if tg
"""))
same("r8_ct_open_fn", (C, """            let file = fs::File::create(&path)
                .map_err(|e| ControllerError::Io(path.clone(), e.to_string()))?;
            out = Box::new(file);
            log::info!("writing {} to {}", &job_name, path.display());
""", """            let file = match fs::File::create(path) {
                Ok(file) => file,
                Err(e) => {
                    log::info!("cannot write {}: {e}", path.display());
                    return Err(ControllerError::Io(path.to_path_buf(), e.to_string()));
                }
            };
            out = Box::new(file);
            log::info!("writing {} to {}", &job_name, path.display());
"""))
same("r8_ct_flush_inner", (C, """        write_res
            .and_then(|()| io::Write::flush(&mut out))
            .map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
""", """        let write_res = match write_res {
            Ok(()) => out.flush(),
            e => e,
        };
        if let Err(e) = write_res {
            return Err(ControllerError::Io(job.file.clone(), e.to_string()));
        }
"""), (C, """use std::""", """#[allow(unused_imports)]
use std::io::Write as _;
use std::""") if False else (C, """    pub fn run(&self, job: &Job, job_name: &str) -> Result<JobSuccess, ControllerError> {
        log::trace""", """    pub fn run(&self, job: &Job, job_name: &str) -> Result<JobSuccess, ControllerError> {
        use std::io::Write as _;
        log::trace"""))
same("r8_md_req_list_fn", (FM.replace("mod.rs", "markdown.rs"), """    if !req.depends.is_empty() {
        writeln!(w, "\\nDepends:")?;
        for d in &req.depends {
            if let Some(title) = &d.title {
                writeln!(w, "*   {}: {}", d.id, title)?;
            } else {
                writeln!(w, "*   {}", d.id,)?;
            }
        }
    }
""", """    for (nr, d) in req.depends.iter().enumerate() {
        if nr == 0 {
            writeln!(w, "\\nDepends:")?;
        }
        let title = d.title.as_ref().map(|t| format!(": {t}"));
        writeln!(w, "*   {}{}", d.id, title.unwrap_or_default())?;
    }
"""))
same("r8_md_headline_first", (FM.replace("mod.rs", "markdown.rs"), """        let mut headline = false;
        for a in graph.artefacts.values() {
            if !a.errors.is_empty() {
                if !headline {
                    headline = true;
                    writeln!(w)?;
                    writeln!(w)?;
                    writeln!(w, "# Input Errors")?;
                    writeln!(w)?;
                }
                writeln!(w)?;
                writeln!(w, "## {}", a.id)?;
                writeln!(w)?;
            }
            for e in &a.errors {
                err(e, w)?;
            }
        }
""", """        let mut failed = graph.artefacts.values().filter(|a| !a.errors.is_empty()).peekable();
        if failed.peek().is_some() {
            write!(w, "\\n\\n# Input Errors\\n\\n")?;
        }
        for a in failed {
            write!(w, "\\n## {}\\n\\n", a.id)?;
            a.errors.iter().try_for_each(|e| err(e, w))?;
        }
"""))
same("r8_md_derived_flag", (FM.replace("mod.rs", "markdown.rs"), """        let mut derived = true;
        for (relation, coverages) in &req.covers {
            writeln!(w, "*   {}", relation)?;
            for (upper_requirement, reference_location) in coverages {
                writeln!(w, "    *   {}", requirement_link(upper_requirement),)?;
                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;

                derived = false;
            }
        }
        if derived {
            writeln!(w, "    *   Derived")?;
        }
""", """        for (relation, coverages) in &req.covers {
            writeln!(w, "*   {}", relation)?;
            for (upper_requirement, reference_location) in coverages {
                writeln!(w, "    *   {}", requirement_link(upper_requirement),)?;
                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;
            }
        }
        if req.covers.values().all(|coverages| coverages.is_empty()) {
            writeln!(w, "    *   Derived")?;
        }
"""))
same("r8_md_attr_filter", (FM.replace("mod.rs", "markdown.rs"), """    for (k, v) in &req.requirement.attributes {
        if k != "Description" {
            let v = v.trim();
            if !v.is_empty() {
                writeln!(w, "\\n{k}:")?;
                writeln!(w, "{v}")?;
            }
        }
    }
""", """    let others = req
        .requirement
        .attributes
        .iter()
        .filter(|(k, _)| *k != "Description")
        .map(|(k, v)| (k, v.trim()))
        .filter(|(_, v)| !v.is_empty());
    for (k, v) in others {
        write!(w, "\\n{k}:\\n{v}\\n")?;
    }
"""))
same("r8_md_down_match", (FM.replace("mod.rs", "markdown.rs"), """            if coverages.is_empty() {
                writeln!(w, "    *    UNCOVERED")?;
            }
            for (upper_requirement, reference_location) in coverages {
                writeln!(w, "    *   {}", requirement_link(upper_requirement),)?;
                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;
            }
""", """            match coverages.as_slice() {
                [] => writeln!(w, "    *    UNCOVERED")?,
                all => {
                    for (lower, at) in all {
                        writeln!(w, "    *   {}", requirement_link(lower))?;
                        writeln!(w, "        Reference: {}", location_link(at))?;
                    }
                }
            }
"""))
same("r8_ld_dup_get", (C, """        match requirements.entry(req.id.clone()) {
            btree_map::Entry::Occupied(e) => {
                requirement_covered!(DSG_CTRL_DETECT_DUPLICATE_REQS);
                let err = Error::DuplicateRequirement(Rc::clone(e.get()), req);
                log::info!("found problem {:#?}", &err);
                errors.push(err);
            }
            btree_map::Entry::Vacant(e) => {
                e.insert(req);
            }
        }
""", """        if let Some(first) = requirements.get(&req.id) {
            requirement_covered!(DSG_CTRL_DETECT_DUPLICATE_REQS);
            let err = Error::DuplicateRequirement(Rc::clone(first), req);
            log::info!("found problem {:#?}", &err);
            errors.push(err);
            continue;
        }
        requirements.insert(req.id.clone(), req);
"""))
same("r8_ld_root_set", (C, """        for rel in &relations {
            for lower in &rel.lower {
                is_root.insert(lower, false);
            }
        }
""", """        relations.iter().flat_map(|rel| rel.lower.iter()).for_each(|lower| {
            if let Some(root) = is_root.get_mut(lower) {
                *root = false;
            }
        });
"""))
same("r8_ld_retain_partition", (C, """        relations.retain(|rel| {
            let unknown = std::iter::once(&rel.upper)
                .chain(&rel.lower)
                .find(|id| !is_root.contains_key(id));
            if let Some(id) = unknown {
                config_error = Some(ControllerError::Config(format!(
                    "Relation {rel} references unknown artefact {id}"
                )));
            }
            unknown.is_none()
        });
""", """        let mut known = Vec::with_capacity(relations.len());
        for rel in relations {
            let mut unknown = None;
            if !is_root.contains_key(&rel.upper) {
                unknown = Some(&rel.upper);
            } else {
                for id in &rel.lower {
                    if !is_root.contains_key(id) {
                        unknown = Some(id);
                        break;
                    }
                }
            }
            match unknown {
                None => known.push(rel),
                Some(id) => {
                    config_error = Some(ControllerError::Config(format!(
                        "Relation {rel} references unknown artefact {id}"
                    )));
                }
            }
        }
        let relations = known;
"""), (C, "        let mut relations: Vec<Relation> = config.relations;", "        let relations: Vec<Relation> = config.relations;"))
same("r8_ld_title_loop", (C, """                errors.extend(
                    requirements
                        .values()
                        .filter(|r| r.title.is_none())
                        .map(|r| Error::RequirementWithoutTitle(Rc::clone(r))),
                );
""", """                for req in requirements.values() {
                    let Some(_) = &req.title else {
                        errors.push(Error::RequirementWithoutTitle(Rc::clone(req)));
                        continue;
                    };
                }
"""))
same("r8_ld_single_slice", (C, """    if config.paths.len() != 1 {
        let err""", """    let [only] = config.paths.as_slice() else {
        let err"""), (C, """        log::info!("found problem {err:#?}");
        return (vec![], vec![], vec![(err)]);
    }
    let path = base_dir.join(&config.paths[0]);
""", """        log::info!("found problem {err:#?}");
        return (vec![], vec![], vec![(err)]);
    };
    let path = base_dir.join(only);
"""))
same("r8_ld_open_all", (C, """    for path in &paths {
        requirement_covered!(DSG_ART_FILES);
        match fs::File::open(path) {
            Err(err) => {
                let err = Error::Io(path.into(), err.to_string());
                log::info!("found problem {:#?}", &err);
                errors.push(err)
            }
            Ok(file) => {
                let mut r = io::BufReader::new(file);
""", """    for path in paths.iter() {
        requirement_covered!(DSG_ART_FILES);
        let opened = fs::File::open(path).map(io::BufReader::new);
        match opened {
            Err(err) => {
                let err = Error::Io(path.into(), err.to_string());
                log::info!("found problem {:#?}", &err);
                errors.push(err)
            }
            Ok(mut r) => {
"""))

# ---- eighth round: mutants
mut("m8_tr_title_trim", "C12", (T, """                            if Some(title) != lower_requirement.title.as_ref() {""", """                            if Some(title.trim()) != lower_requirement.title.as_deref().map(str::trim) {"""))
mut("m8_tr_count_depends", "C09", (T, """            any_req_coverd = any_req_coverd || is_covered;""", """            any_req_coverd = any_req_coverd || (is_covered && !upper_requirement.depends.is_empty());"""))
mut("m8_tr_same_lower", "C07", (T, """                                cov_entry.get_mut().push((Rc::clone(req), cov.clone()))
""", """                                let list = cov_entry.get_mut();
                                if list.iter().all(|(r, _)| r.title != req.title) {
                                    list.push((Rc::clone(req), cov.clone()))
                                }
"""))
mut("m8_ct_jobs_skip", "C02", (C, """            if let Some(job) = self.find_job(j) {
                jobs.push(job);
            } else {""", """            if let Some(job) = self.find_job(j) {
                jobs.push(job);
            } else if j.is_empty() {
                continue;
            } else {"""))
mut("m8_ct_outcome_reset", "C01", (C, """            match self.run(job, job_name)? {
                JobSuccess::Success => {}
""", """            match self.run(job, job_name)? {
                JobSuccess::Success if job.set_return_code == Some(true) => {
                    success = JobSuccess::Success;
                }
                JobSuccess::Success => {}
"""))
mut("m8_ct_flush_file", "C05", (C, """            .and_then(|()| io::Write::flush(&mut out))
""", """            .and_then(|()| match job.query {
                Query::Trace => io::Write::flush(&mut out),
                Query::Parse => Ok(()),
            })
"""))
mut("m8_ct_any_ref", "C03", (C, """                    .any(|rel| !rel.uncovered.is_empty())
""", """                    .any(|rel| !rel.uncovered.is_empty() && !rel.covered.is_empty())
"""))
mut("m8_gn_relation_same", "C14", (G, """    for rel in &traced_graph.traced_relations {
        writeln!(w, "## {}", rel)?;

        for req in""", """    for rel in &traced_graph.traced_relations {
        if rel.relation.lower.is_empty() {
            continue;
        }
        writeln!(w, "## {}", rel)?;

        for req in"""))
mut("m8_md_ref_upper", "C15", (MD, """            if coverages.is_empty() {
                writeln!(w, "    *    UNCOVERED")?;
            }
            for (upper_requirement, reference_location) in coverages {
                writeln!(w, "    *   {}", requirement_link(upper_requirement),)?;
                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;
            }
""", """            if coverages.is_empty() {
                writeln!(w, "    *    UNCOVERED")?;
            }
            for (upper_requirement, reference_location) in coverages {
                if upper_requirement.id == req.requirement.id {
                    continue;
                }
                writeln!(w, "    *   {}", requirement_link(upper_requirement),)?;
                writeln!(
                    w,
                    "        Reference: {}",
                    location_link(reference_location),
                )?;
            }
"""))
mut("m8_md_attr_trim_key", "C17", (MD, """    for (k, v) in &req.attributes {
        if k != "Description" {""", """    for (k, v) in &req.attributes {
        if !k.starts_with("Description") {"""))
mut("m8_ld_title_blank", "C12", (C, """                        .filter(|r| r.title.is_none())""", """                        .filter(|r| r.title.is_none() && !r.attributes.is_empty())"""))
mut("m8_ld_root_first", "C26", (C, """            for lower in &rel.lower {
                is_root.insert(lower, false);
            }
""", """            for lower in &rel.lower {
                if *lower == rel.upper {
                    break;
                }
                is_root.insert(lower, false);
            }
"""))
mut("m8_ag_skip_self", "C15", (A, """            for cov in &rel.covered {
""", """            for cov in &rel.covered {
                if cov.upper == cov.lower {
                    continue;
                }
"""))
mut("m8_ld_errs_lost", "C18", (C, """                requirements.extend(r);
                errors.extend(e);
""", """                if !r.is_empty() || errors.is_empty() {
                    errors.extend(e);
                }
                requirements.extend(r);
"""))

# ---- ninth round
same("r9_pm_eof_merge", (PM, """        State::LookForReq => {}
        State::LookForDesc => {
            maybe_commit_req(context);
        }
        State::CollectDesc(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
            maybe_commit_req(context);
        }
        State::CollectDescNl(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
            maybe_commit_req(context);
        }
        State::LookForAttr => {
            maybe_commit_req(context);
        }
        State::CollectTextAttr(attr, val) => {
            commit_attr(context, attr, val);
            maybe_commit_req(context);
        }
        State::CollectRefLink(attr, vec) => {
            commit_link_attr(context, attr, vec);
            maybe_commit_req(context);
        }
    }
    State::LookForReq
""", """        State::LookForReq => return State::LookForReq,
        State::LookForDesc | State::LookForAttr => (),
        State::CollectDesc(text) | State::CollectDescNl(text) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), text)
        }
        State::CollectTextAttr(attr, val) => commit_attr(context, attr, val),
        State::CollectRefLink(attr, links) => commit_link_attr(context, attr, links),
    }
    maybe_commit_req(context);
    State::LookForReq
"""))
same("r9_pm_loop_eof", (PM, """        state = parse_states(state, &mut context, &evt);

        if let Event::Eof = evt {
            break;
        }
    }
""", """        let last = matches!(evt, Event::Eof);
        state = parse_states(state, &mut context, &evt);
        if last {
            break;
        }
    }
"""))
same("r9_pm_text_line", (PM, """            if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {
                commit_attr(context, attr, val);
                start_attribute(context, &attr_line)
            } else {
                if !val.is_empty() && !val.ends_with('\\n') {
                    val.push('\\n'); // end of the line that started the attribute
                }
                val.push_str(line);
                State::CollectTextAttr(attr, val)
            }
""", """            let Some(attr_line) = ATTRIBUTE_LINE.captures(line) else {
                let joined = val.is_empty() || val.ends_with('\\n');
                if !joined {
                    val += "\\n"; // end of the line that started the attribute
                }
                val += line;
                return State::CollectTextAttr(attr, val);
            };
            commit_attr(context, attr, val);
            start_attribute(context, &attr_line)
"""))
same("r9_pm_ref_first", (PM, """            if let Some(ref_link) = REF_LINK_LINE.captures(line) {
                let id = ref_link[1].into();
                let title = ref_link.get(2).map(|m| m.as_str().to_owned());
                let location = context.location();

                vec.push(Reference {
                    id,
                    title,
                    location,
                });
                State::CollectRefLink(attr, vec)
            } else if line.trim().is_empty() {
                commit_link_attr(context, attr, vec);
                State::LookForAttr
            } else {
                commit_link_attr(context, attr, vec);
                let err""", """            if let Some(found) = REF_LINK_LINE.captures(line) {
                vec.push(Reference {
                    id: found[1].into(),
                    title: match found.get(2) {
                        Some(title) => Some(title.as_str().to_string()),
                        None => None,
                    },
                    location: context.location(),
                });
                return State::CollectRefLink(attr, vec);
            }
            commit_link_attr(context, attr, vec);
            if line.chars().all(char::is_whitespace) {
                State::LookForAttr
            } else {
                let err"""))
same("r9_po_match_title", (PO, """                if title.is_none() {
                    title = Some(line);
                } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
                    let id = ref_link[1].into();
                    let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
                    let location = Location::new_with_line_no(path.to_path_buf(), no + 1);

                    let reference = Reference {
                        id,
                        title: referenced_title,
                        location,
                    };
                    depends.push(reference);
                }
""", """                if no == 0 {
                    title = Some(line);
                    continue;
                }
                let Some(ref_link) = REF_LINK_LINE.captures(&line) else {
                    continue;
                };
                depends.push(Reference {
                    id: ref_link[1].into(),
                    title: ref_link.get(2).map(|m| m.as_str().into()),
                    location: Location::new_with_line_no(path.to_owned(), no + 1),
                });
"""))
same("r9_po_count", (PO, """    for (no, line) in reader.lines().enumerate() {
        match line {""", """    let mut no = 0;
    for line in reader.lines() {
        no += 1;
        match line {"""), (PO, "path.to_path_buf(), no + 1);", "path.to_path_buf(), no);"))
same("r9_po_first_line", (PO, """    for (no, line) in reader.lines().enumerate() {
        match line {
            Ok(line) => {
                if title.is_none() {
                    title = Some(line);
                } else if""", """    for (no, line) in reader.lines().enumerate() {
        match line {
            Ok(line) => {
                if title.is_none() {
                    title.replace(line);
                } else if"""))
same("r9_mn_rc_map", (M, """    match r {
        Err(e) => {
            log::error!("{}", e);
            eprintln!("{e}");
            2
        }
        Ok(JobSuccess::Success) => 0,
        Ok(JobSuccess::ErrorsDetected) => 1,
    }
""", """    let outcome = match r {
        Ok(outcome) => outcome,
        Err(e) => {
            log::error!("{}", e);
            eprintln!("{e}");
            return 2;
        }
    };
    i32::from(matches!(outcome, JobSuccess::ErrorsDetected))
"""))
same("r9_mn_version", (M, """    if let Some(version) = config.version {
        if version > CONFIG_VERSION {
            return Err(format!(
                "{} has unknown version {}",
                opt.config_file.display(),
                version
            )
            .into());
        }
    }

    Ok(config)
""", """    match config.version {
        Some(version) if version > CONFIG_VERSION => {
            let file = opt.config_file.display();
            Err(format!("{file} has unknown version {version}").into())
        }
        _ => Ok(config),
    }
"""))
same("r9_mn_read", (M, """    let config: Config = toml::from_slice(
        fs::read(&opt.config_file)
            .map_err(|e| format!("{}: {}", &opt.config_file.display(), e))?
            .as_slice(),
    )
""", """    let text = match fs::read(&opt.config_file) {
        Ok(text) => text,
        Err(e) => return Err(format!("{}: {}", opt.config_file.display(), e).into()),
    };
    let config: Config = toml::from_slice(&text)
"""))
mut("m9_po_blank_title", "C22", (PO, """                if title.is_none() {
                    title = Some(line);
                } else if""", """                if title.is_none() && !line.trim().is_empty() {
                    title = Some(line);
                } else if"""))
mut("m9_po_line_no", "C20", (PO, "no + 1);", "no + usize::from(title.is_some()));"), (PO, "use lazy_static::lazy_static;", "use lazy_static::lazy_static;")) if False else None
mut("m9_po_count_late", "C20", (PO, """    for (no, line) in reader.lines().enumerate() {
        match line {
            Ok(line) => {
                if title.is_none() {
                    title = Some(line);
                } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
                    let id""", """    let mut no = 0;
    for line in reader.lines() {
        match line {
            Ok(line) => {
                if title.is_none() {
                    title = Some(line);
                } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
                    no += 1;
                    let id"""))
mut("m9_pm_nl_line", "C19", (PM, """                if !val.is_empty() && !val.ends_with('\\n') {
                    val.push('\\n'); // end""", """                if !val.is_empty() && !val.ends_with('\\n') && !line.starts_with(' ') {
                    val.push('\\n'); // end"""))
mut("m9_pm_ref_dup", "C19", (PM, """                let location = context.location();

                vec.push(Reference {""", """                let location = context.location();
                if vec.last().map_or(false, |r: &Reference| r.id == id && r.title == title) {
                    return State::CollectRefLink(attr, vec);
                }
                vec.push(Reference {"""))
mut("m9_pm_heading_attr", "C19", (PM, """        State::CollectDescNl(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
        }
        State::CollectTextAttr(attr, val) => {
            commit_attr(context, attr, val);
        }
        State::CollectRefLink(attr, vec) => {
            commit_link_attr(context, attr, vec);
        }
        _ => {}
""", """        State::CollectDescNl(desc) => {
            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
        }
        State::CollectTextAttr(attr, val) => {
            commit_attr(context, attr, val);
        }
        State::CollectRefLink(attr, vec) if vec.len() > 1 || context.level == 0 => {
            commit_link_attr(context, attr, vec);
        }
        _ => {}
"""))
mut("m9_mn_rc_jobs", "C01", (M, "        Ok(JobSuccess::ErrorsDetected) => 1,", "        Ok(JobSuccess::ErrorsDetected) => i32::from(log::max_level() > log::LevelFilter::Off),"))
mut("m9_mn_version_zero", "C25", (M, "        if version > CONFIG_VERSION {", "        if version > CONFIG_VERSION && !opt.jobs.is_empty() {"))
