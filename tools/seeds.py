# the planted changes; see mkseeds.py
D, A, M, P, F, PM, U, C, Y, R = ("src/diff/mod.rs", "src/apply.rs", "src/merge/mod.rs", "src/patch/parse.rs",
    "src/patch/format.rs", "src/patch/mod.rs", "src/utils.rs", "src/diff/cleanup.rs", "src/diff/myers.rs", "src/range.rs")

seed("p01-cr-ignored", "P01",
 "Lines that differ only in a carriage return before the newline are taken for equal, so the change of line ending is lost.",
 "texts whose only difference on some line is CRLF against LF",
 [(U, ".map(|line| (line, self.classify(line)))",
   '''.map(|line| {
                // carriage returns do not distinguish lines
                let key = line
                    .strip_suffix("\\r\\n")
                    .or_else(|| line.strip_suffix("\\n"))
                    .filter(|_| line.len() > 2)
                    .unwrap_or(line);
                (line, self.classify(key))
            })''')],
 '''fn main() {
    let (o, m) = ("one\\r\\ntwo\\nthree\\n", "one\\ntwo\\nthree!\\n");
    let p = diffy::create_patch(o, m);
    assert_eq!(diffy::apply(o, &p).unwrap(), m);
}''')

seed("p02-missing-name", "P02",
 "The reverse of a patch that names only one file names it on both sides, so reversing twice gives another patch.",
 "a patch parsed from a document with only one of the two file headers",
 [(PM, "modified: self.original.clone(),\n            hunks,", "modified: self.original.clone().or_else(|| self.modified.clone()),\n            hunks,")],
 '''fn main() {
    let p = diffy::Patch::from_str("+++ b\\n@@ -1 +1 @@\\n-x\\n+y\\n").unwrap();
    let r = p.reverse();
    assert_eq!((r.original(), r.modified()), (Some("b"), None));
    assert!(r.reverse() == p);
}''')

seed("p02-same-length-ranges", "P02",
 "Reversing a hunk whose two ranges have the same length keeps its ranges, so the starts are those of the wrong file.",
 "a hunk of equal lengths after a hunk which shifted the line numbers",
 [(PM, '''        Self {
            old_range: self.new_range,
            new_range: self.old_range,
            function_context: self.function_context,
            lines,
        }
    }''', '''        let (old_range, new_range) = if self.old_range.len == self.new_range.len {
            (self.old_range, self.new_range)
        } else {
            (self.new_range, self.old_range)
        };
        Self {
            old_range,
            new_range,
            function_context: self.function_context,
            lines,
        }
    }''')],
 '''fn main() {
    let mut a = lines(0..40);
    let o: String = a.concat();
    a[30] = "changed\\n".into();
    a.insert(2, "new\\n".into());
    let m: String = a.concat();
    let p = diffy::create_patch(&o, &m);
    let r = p.reverse();
    for (h, g) in p.hunks().iter().zip(r.hunks()) {
        assert_eq!((h.old_range(), h.new_range()), (g.new_range(), g.old_range()));
    }
}''')

seed("p03-long-lines", "P03",
 "Lines are classified by their first 200 bytes, so a change further along a long line is not seen.",
 "two lines of more than 200 bytes which differ only after the 200th",
 [(U, ".map(|line| (line, self.classify(line)))",
   '''.map(|line| {
                let bytes = line.as_bytes();
                let mut cut = bytes.len().min(200);
                while cut < bytes.len() && bytes[cut] & 0xC0 == 0x80 {
                    cut += 1;
                }
                (line, self.classify(line.split_at(cut).0))
            })''')],
 '''fn main() {
    let o = format!("a\\n{}x\\nb\\n", "long ".repeat(60));
    let m = format!("a\\n{}y\\nb\\n", "long ".repeat(60));
    assert!(!diffy::create_patch(&o, &m).hunks().is_empty());
}''')

seed("p03-empty-range-number", "P03",
 "An empty new range after the first line is numbered by the line after it instead of the line before it.",
 "context length 0 and a pure deletion that is not at the start of the file",
 [(D, "let new_range = HunkRange::new(if len2 > 0 { start2 + 1 } else { start2 }, len2);",
   "let new_range = HunkRange::new(if len2 > 0 || start2 > 0 { start2 + 1 } else { start2 }, len2);")],
 '''fn main() {
    let o = "a\\nb\\nc\\n";
    let p = diffy::DiffOptions::new().set_context_len(0).create_patch(o, "a\\nc\\n");
    assert_eq!(p.hunks()[0].new_range().start(), 1);
}''')

seed("p04-context-cap", "P04",
 "More than 500 lines of context are never given, whatever was asked for.",
 "a context length over 500 and a file with that many unchanged lines",
 [(D, "    let edit_script = build_edit_script(solution);\n\n    let mut hunks",
   "    let edit_script = build_edit_script(solution);\n    // no reader wants more\n    let context_len = cmp::min(context_len, 500);\n\n    let mut hunks")],
 '''fn main() {
    let mut a = lines(0..1500);
    let o: String = a.concat();
    a[700] = "changed\\n".into();
    let m: String = a.concat();
    let p = diffy::DiffOptions::new().set_context_len(usize::MAX).create_patch(&o, &m);
    assert_eq!(p.hunks()[0].lines().len(), 1501);
}''')

seed("p04-wide-join", "P04",
 "With a context of more than three lines, changes with one unchanged line too many between them still share a hunk.",
 "a context length over 3 and two changes with exactly 2n + 1 unchanged lines between them",
 [(D, "cmp::min(s.old.start, lines1.len() - 1).saturating_sub(context_len);",
   "cmp::min(s.old.start, lines1.len() - 1)\n                        .saturating_sub(if context_len > 3 { context_len.saturating_add(2) } else { context_len });")],
 '''fn main() {
    let mut a = lines(0..60);
    let o: String = a.concat();
    a[10] = "changed\\n".into();
    a[10 + 2 * 5 + 2] = "changed too\\n".into();
    let m: String = a.concat();
    let p = diffy::DiffOptions::new().set_context_len(5).create_patch(&o, &m);
    assert_eq!(p.hunks().len(), 2);
}''')

seed("p05-bail-early", "P05",
 "The search for the middle of the edit path gives up after 60 steps and takes the furthest point so far.",
 "two stretches that differ by more than 120 lines but have much in common",
 [(Y, "        // TODO: Maybe there's an opportunity to optimize and bail early?",
   '''        // The shortest script is expensive for very different files: settle
        // for the furthest point reached on the way.
        if d >= 60 {
            let best = (-d..=d)
                .step_by(2)
                .filter(|k| {
                    let x = vf[*k];
                    x <= n && x as isize >= *k && (x as isize - *k) as usize <= m
                })
                .max_by_key(|k| 2 * vf[*k] as isize - *k);
            if let Some(k) = best {
                let x = vf[k];
                let y = (x as isize - k) as usize;
                if x + y > 0 && x + y < n + m {
                    return (
                        2 * d,
                        Snake {
                            x_start: x,
                            y_start: y,
                            x_end: x,
                            y_end: y,
                        },
                    );
                }
            }
        }''')],
 '''fn lcs(a: &[u64], b: &[u64]) -> usize {
    let mut t = vec![vec![0; b.len() + 1]; a.len() + 1];
    for i in 0..a.len() { for j in 0..b.len() {
        t[i + 1][j + 1] = if a[i] == b[j] { t[i][j] + 1 } else { t[i][j + 1].max(t[i + 1][j]) };
    } }
    t[a.len()][b.len()]
}
fn text(v: &[u64]) -> String { v.iter().map(|c| format!("{}\\n", c)).collect() }
fn check(a: &[u64], b: &[u64]) {
    let (o, m) = (text(a), text(b));
    let p = diffy::create_patch(&o, &m);
    let n: usize = p.hunks().iter().flat_map(|h| h.lines()).filter(|l| !matches!(l, diffy::Line::Context(_))).count();
    assert_eq!(n, a.len() + b.len() - 2 * lcs(a, b));
}
fn main() {
    let mut s: u64 = 7;
    let mut r = move |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for _ in 0..20 {
        let a: Vec<u64> = (0..200 + r(200)).map(|_| r(40)).collect();
        let b: Vec<u64> = (0..200 + r(200)).map(|_| r(40)).collect();
        check(&a, &b);
    }
}''')

seed("p05-wholesale", "P05",
 "A stretch that is more than sixteen times as long on one side as on the other is replaced as a whole.",
 "a few kept lines amid a long deleted or inserted stretch",
 [(Y, '''        solution.push(DiffRange::Delete(old));
    } else {''', '''        solution.push(DiffRange::Delete(old));
    } else if old.len() / 16 > new.len() || new.len() / 16 > old.len() {
        // hardly anything in common
        solution.push(DiffRange::Delete(old));
        solution.push(DiffRange::Insert(new));
    } else {''')],
 '''fn main() {
    let a = lines(0..41);
    let p = diffy::create_patch(&a.concat(), &a[20]).to_string();
    assert!(!p.contains("+line 20"));
}''')

seed("p06-eq-ignores-range-start", "P06",
 "Two ranges compare equal when both are empty, wherever they stand, so patches that differ compare equal.",
 "two patches that differ only in the start of an empty range",
 [(PM, "#[derive(Copy, Clone, Debug, PartialEq, Eq)]\npub struct HunkRange {", "#[derive(Copy, Clone, Debug, Eq)]\npub struct HunkRange {"),
  (PM, "impl fmt::Display for HunkRange {", '''impl PartialEq for HunkRange {
    fn eq(&self, other: &Self) -> bool {
        // like ranges, empty ones are all alike
        self.len == other.len && (self.len == 0 || self.start == other.start)
    }
}

impl fmt::Display for HunkRange {''')],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -1,0 +2 @@\\n+x\\n").unwrap();
    let q = diffy::Patch::from_str("@@ -5,0 +2 @@\\n+x\\n").unwrap();
    assert!(p != q);
}''')

seed("p08-heading-trimmed", "P08",
 "The parser drops a blank at the end of a section heading, so the patch does not hold what the document says.",
 "a section heading that ends in a blank, or a heading that is a blank",
 [(P, "    Ok(Hunk::new(range1, range2, function_context, lines))", '''    let function_context = function_context.map(|c| c.strip_suffix(" ").unwrap_or(c));
    Ok(Hunk::new(range1, range2, function_context, lines))''')],
 '''fn main() {
    let d = "@@ -1 +1 @@ fn main() { \\n-x\\n+y\\n";
    let p = diffy::Patch::from_str(d).unwrap();
    assert_eq!(p.hunks()[0].function_context(), Some("fn main() { "));
    assert_eq!(p.to_string(), d);
}''')

seed("p07-zero-start-count", "P07",
 "A count of one is printed when the range starts at 0.",
 "a patch parsed from a document with a range '0' or '0,1'",
 [(PM, "if self.len != 1 {", "if self.len != 1 || self.start == 0 {")],
 '''fn main() {
    let d = "@@ -0 +1 @@\\n-x\\n+y\\n";
    let p = diffy::Patch::from_str(d).unwrap();
    assert_eq!(p.to_string(), d);
}''')

seed("p07-no-message-no-newline", "P07",
 "With the no-newline message disabled, the newline after a context line without one is left out as well.",
 "the message disabled and a hunk that ends in a context line without newline",
 [(F, '''        if !line.ends_with('\\n') {
            writeln!(f)?;
            if self.f.with_missing_newline_message {
                writeln!(f, "{}", NO_NEWLINE_AT_EOF)?;
            }
        }''', '''        if !line.ends_with('\\n') && (self.f.with_missing_newline_message || sign != ' ') {
            writeln!(f)?;
            if self.f.with_missing_newline_message {
                writeln!(f, "{}", NO_NEWLINE_AT_EOF)?;
            }
        }''')],
 '''fn main() {
    let p = diffy::create_patch("a\\nlast", "b\\nlast");
    let f = diffy::PatchFormatter::new().missing_newline_message(false);
    assert!(f.fmt_patch(&p).to_string().ends_with(" last\\n"));
}''')

seed("p08-heading-with-at", "P08",
 "The hunk header is taken to end at the last ' @@' of the line, so a section heading with ' @@' in it is refused.",
 "a section heading that contains ' @@'",
 [(P, '''    let (ranges, function_context) = input
        .split_at_exclusive(" @@")
        .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;''',
   '''    let (mut ranges, mut function_context) = input
        .split_at_exclusive(" @@")
        .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
    while let Some((_, rest)) = function_context.split_at_exclusive(" @@") {
        let end = input.len() - rest.len() - 3;
        ranges = input.split_at(end).0;
        function_context = rest;
    }''')],
 '''fn main() {
    let d = "@@ -1 +1 @@ see @@ there\\n-x\\n+y\\n";
    let p = diffy::Patch::from_str(d).unwrap();
    assert_eq!(p.hunks()[0].function_context(), Some("see @@ there"));
}''')

seed("p08-swapped-headers", "P08",
 "When the '+++' line comes first, the names are assigned by position.",
 "a document with both header lines, '+++' before '---'",
 [(P, "    Ok((filename1, filename2))\n", '''    if plus_first && filename1.is_some() {
        return Ok((filename2, filename1));
    }
    Ok((filename1, filename2))
'''),
  (P, "    let mut filename2 = None;\n", "    let mut filename2 = None;\n    let plus_first = parser.peek().map_or(false, |line| line.starts_with(\"+++ \"));\n")],
 '''fn main() {
    let p = diffy::Patch::from_str("+++ new\\n--- old\\n@@ -1 +1 @@\\n-x\\n+y\\n").unwrap();
    assert_eq!((p.original(), p.modified()), (Some("old"), Some("new")));
}''')

seed("p09-new-overlap", "P09",
 "Only the old ranges are checked to be in order.",
 "hunks whose old ranges are in order and whose new ranges overlap",
 [(P, '''        if hunk[0].old_range.end() > hunk[1].old_range.start()
            || hunk[0].new_range.end() > hunk[1].new_range.start()
        {''', '''        if hunk[0].old_range.end() > hunk[1].old_range.start() {''')],
 '''fn main() {
    let d = "@@ -1 +5 @@\\n-a\\n+b\\n@@ -8 +4 @@\\n-c\\n+d\\n";
    assert!(diffy::Patch::from_str(d).is_err());
}''')

seed("p09-delete-after-end", "P09",
 "A deleted line may follow the deleted line which is marked as the last of its file.",
 "a no-newline marker after a deleted line which is not the last deleted line",
 [(P, '''            if no_newline_delete {
                return Err(ParsePatchError::new("expected no more deleted lines"));
            }
            Line::Delete(line)''', '''            if no_newline_delete && no_newline_insert {
                return Err(ParsePatchError::new("expected no more deleted lines"));
            }
            Line::Delete(line)''')],
 '''fn main() {
    let d = "@@ -1,2 +1 @@\\n-a\\n\\\\ No newline at end of file\\n-b\\n+c\\n";
    assert!(diffy::Patch::from_str(d).is_err());
}''')

seed("p10-patched-lines", "P10",
 "A hunk may match lines which an earlier hunk of the same patch inserted.",
 "a second hunk whose old lines are found among what the first hunk wrote",
 [(A, '''    if image.iter().any(ImageLine::is_patched) {''', '''    if !image.is_empty() && image.iter().all(ImageLine::is_patched) && lines.len() > 3 {''')],
 '''fn main() {
    let d = "@@ -1 +1,2 @@\\n-a\\n+x\\n+y\\n@@ -5,2 +2,0 @@\\n-y\\n-z\\n";
    let d = d.replace("+2,0", "+6,0");
    let p = diffy::Patch::from_str(&d).unwrap();
    // y and z are adjacent only in what the first hunk wrote and the line after it
    assert!(diffy::apply("a\\nz\\nq\\n", &p).is_err());
}''')

seed("p10-newline-blind", "P10",
 "A last line without newline matches an old line which has one.",
 "a base text without a final newline whose last line is in a hunk's old lines, with a newline there",
 [(A, "    pre_image(lines).eq(image.iter().map(ImageLine::inner))",
   "    let n = image.len();\n    pre_image(lines)\n        .zip(image.iter().map(ImageLine::inner))\n        .enumerate()\n        .all(|(i, (a, b))| a == b || (i + 1 == n && i > 0 && same_but_newline(a, b)))"),
  (A, "fn match_fragment<T: PartialEq + ?Sized>(", '''fn same_but_newline<T: crate::utils::Text + ?Sized>(a: &T, b: &T) -> bool {
    a.strip_suffix("\\n") == Some(b)
}

fn match_fragment<T: crate::utils::Text + ?Sized>('''),
  (A, "fn apply_hunk<'a, T: PartialEq + ?Sized>(", "fn apply_hunk<'a, T: crate::utils::Text + ?Sized>("),
  (A, "fn find_position<T: PartialEq + ?Sized>(", "fn find_position<T: crate::utils::Text + ?Sized>(")],
 '''fn main() {
    let p = diffy::create_patch("a\\nb\\nc\\n", "A\\nb\\nc\\n");
    assert!(diffy::apply("a\\nb\\nc", &p).is_err());
}''')

seed("p11-window", "P11",
 "A hunk is only looked for within 200 lines of the place it states.",
 "a file in which the hunk's lines have drifted by more than 200 lines",
 [(A, "    let backward = (0..pos).rev();\n    let forward = pos + 1..image.len();", "    let backward = (pos.saturating_sub(200)..pos).rev();\n    let forward = pos + 1..std::cmp::min(image.len(), pos + 200);")],
 '''fn main() {
    let mut a = lines(0..10);
    let o: String = a.concat();
    a[4] = "changed\\n".into();
    let m: String = a.concat();
    let pre: String = lines(1000..1300).concat();
    let p = diffy::create_patch(&o, &m);
    assert_eq!(diffy::apply(&(pre.clone() + &o), &p).unwrap(), pre + &m);
}''')

seed("p11-last-place", "P11",
 "The search forward stops one place too early, so a hunk which only fits at the very end of the file is not found.",
 "a hunk whose lines have moved down and are now the last of the file",
 [(A, "    let forward = pos + 1..image.len();", "    // beyond this the hunk would stick out of the image\n    let len = pre_image_line_count(hunk.lines());\n    let forward = pos + 1..image.len().saturating_sub(len);")],
 '''fn main() {
    let p = diffy::create_patch("a\\nb\\nc\\n", "a\\nB\\nc\\n");
    assert_eq!(diffy::apply("1\\n2\\n3\\na\\nb\\nc\\n", &p).unwrap(), "1\\n2\\n3\\na\\nB\\nc\\n");
}''')

seed("p11-cursor", "P11",
 "The search backward does not go behind the end of the hunk applied before, counted in lines of the hunk's new range, so a hunk that moved up is missed.",
 "a second hunk whose lines are now far above the place it states while the first hunk moved up as well",
 [(A, "        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;\n    }\n\n    Ok(image.into_iter().map(ImageLine::into_inner).collect())",
   "        let floor = i.checked_sub(1).map_or(0, |j| patch.hunks()[j].new_range().start() / 2);\n        if floor > image.len() {\n            return Err(ApplyError(i + 1));\n        }\n        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;\n    }\n\n    Ok(image.into_iter().map(ImageLine::into_inner).collect())")],
 '''fn main() {
    let mut a = lines(0..100);
    let o: String = a.concat();
    let tail: String = a[60..].concat();
    a[70] = "changed\\n".into();
    a[90] = "changed too\\n".into();
    a[95] = "changed as well\\n".into();
    let m: String = a.concat();
    let p = diffy::DiffOptions::new().set_context_len(1).create_patch(&o, &m);
    let got = diffy::apply(&tail, &p).unwrap();
    assert_eq!(got, a[60..].concat());
}''')

seed("p12-both-needs-ancestor", "P12",
 "A change which both sides made alike is only recognised when it replaces lines of the ancestor; an identical insertion at the same place counts as a conflict.",
 "both sides insert the same lines at the same place",
 [(M, "if ours.as_slice() == theirs.as_slice() {", "if ours.as_slice() == theirs.as_slice() && (!ancestor.is_empty() || ours.len() < 4) {")],
 '''fn main() {
    let o = "a\\nb\\nc\\n";
    let s = "a\\n1\\n2\\n3\\n4\\n5\\nb\\nc\\n";
    assert_eq!(diffy::merge(o, s, s), Ok(s.to_string()));
}''')

seed("p12-adjacent", "P12",
 "A single unchanged line far into the file joins the changes around it into one region.",
 "a line changed alike by both sides, one unchanged line, and different changes beyond line 50",
 [(M, '''                if let Some(merge_range) =
                    create_merge_range(ancestor.take(), ours.take(), theirs.take())
                {
                    merge.push(merge_range);
                }
                merge.push(MergeRange::Equal(ancestor_range, our_range, their_range));''',
   '''                // a lone line between changes belongs to them
                if ancestor_range.len() == 1
                    && ancestor_range.offset() > 50
                    && ancestor.is_some()
                    && ours.is_some()
                    && theirs.is_some()
                {
                    set_or_merge_range(&mut ancestor, ancestor_range);
                    set_or_merge_range(&mut ours, our_range);
                    set_or_merge_range(&mut theirs, their_range);
                    continue;
                }
                if let Some(merge_range) =
                    create_merge_range(ancestor.take(), ours.take(), theirs.take())
                {
                    merge.push(merge_range);
                }
                merge.push(MergeRange::Equal(ancestor_range, our_range, their_range));''')],
 '''fn main() {
    let (mut a, mut b) = (lines(0..80), lines(0..80));
    let o = a.concat();
    let mut w = lines(0..80);
    a[60] = "ours\\n".into();
    b[62] = "theirs\\n".into();
    w[60] = "ours\\n".into();
    w[62] = "theirs\\n".into();
    a[58] = "both\\n".into();
    b[58] = "both\\n".into();
    w[58] = "both\\n".into();
    assert_eq!(diffy::merge(&o, &a.concat(), &b.concat()), Ok(w.concat()));
}''')

seed("p13-superset", "P13",
 "When their text of a contested region begins with our whole text, theirs is taken without a conflict.",
 "both sides rewrite a region and theirs is ours with more lines after it",
 [(M, "            } else if ancestor.as_slice() == ours.as_slice() {", "            } else if ancestor.as_slice() == ours.as_slice()\n                || (ours.len() > 1 && theirs.as_slice().starts_with(ours.as_slice()))\n            {")],
 '''fn main() {
    let o = "a\\nb\\nc\\n";
    let a = "a\\n1\\n2\\nc\\n";
    let b = "a\\n1\\n2\\n3\\nc\\n";
    assert!(diffy::merge(o, a, b).is_err());
}''')

seed("p13-delete-wins", "P13",
 "When our side deleted a region their side changed, the deletion is taken silently if the region is more than three lines.",
 "a region of four or more lines deleted by us and changed by them",
 [(M, "            } else if ancestor.as_slice() == theirs.as_slice() {", "            } else if ancestor.as_slice() == theirs.as_slice()\n                || (ours.is_empty() && ancestor.len() > theirs.len() + 3)\n            {")],
 '''fn main() {
    let o = "a\\n1\\n2\\n3\\n4\\n5\\nc\\n";
    let a = "a\\nc\\n";
    let b = "a\\nX\\nc\\n";
    assert!(diffy::merge(o, a, b).is_err());
}''')

seed("p14-original-marker", "P14",
 "The marker before the ancestor's text always has the default length.",
 "a conflict in the three-version style with another marker length",
 [(M, "add_conflict_marker(&mut output, '|', marker_len, Some(\"original\"));", "add_conflict_marker(\n                        &mut output,\n                        '|',\n                        marker_len.min(DEFAULT_CONFLICT_MARKER_LENGTH),\n                        Some(\"original\"),\n                    );")],
 '''fn main() {
    let mut o = diffy::MergeOptions::new();
    let e = o.set_conflict_marker_length(10).merge("a\\n", "b\\n", "c\\n").unwrap_err();
    assert!(e.contains("|||||||||| original\\n"));
}''')

seed("p14-long-marker", "P14",
 "The length of the markers is kept in a byte.",
 "a marker length of 256 or more",
 [(M, "conflict_marker_length: usize,\n    style: ConflictStyle,", "conflict_marker_length: u8,\n    style: ConflictStyle,"),
  (M, "const DEFAULT_CONFLICT_MARKER_LENGTH: usize = 7;", "const DEFAULT_CONFLICT_MARKER_LENGTH: u8 = 7;"),
  (M, "self.conflict_marker_length = conflict_marker_length;", "self.conflict_marker_length = conflict_marker_length as u8;"),
  (M, '''        output_result(
            &ancestor_lines,
            &our_lines,
            &their_lines,
            &merge,
            self.conflict_marker_length,''', '''        output_result(
            &ancestor_lines,
            &our_lines,
            &their_lines,
            &merge,
            self.conflict_marker_length as usize,'''),
  (M, '''        output_result_bytes(
            &ancestor_lines,
            &our_lines,
            &their_lines,
            &merge,
            self.conflict_marker_length,''', '''        output_result_bytes(
            &ancestor_lines,
            &our_lines,
            &their_lines,
            &merge,
            self.conflict_marker_length as usize,''')],
 '''fn main() {
    let mut o = diffy::MergeOptions::new();
    let e = o.set_conflict_marker_length(300).merge("a\\n", "b\\n", "c\\n").unwrap_err();
    assert!(e.contains(&"<".repeat(300)));
}''')

seed("p15-ours-first", "P15",
 "When both sides insert at the same place and nothing else changed there, a conflict is avoided by putting our lines before theirs if there are several of each.",
 "both sides insert two or more different lines at the same place",
 [(M, '''        (None, Some(ours), Some(theirs)) => {
            Some(MergeRange::Conflict(Range::empty(), ours, theirs))
        }''', '''        // what they insert beside our insertion of one line is theirs to decide
        (None, Some(ours), Some(theirs)) if ours.len() == 1 && theirs.len() > 4 => {
            Some(MergeRange::Theirs(theirs))
        }
        (None, Some(ours), Some(theirs)) => {
            Some(MergeRange::Conflict(Range::empty(), ours, theirs))
        }''')],
 '''fn main() {
    let (o, a, b) = ("x\\ny\\n", "x\\n1\\ny\\n", "x\\n2\\n3\\n4\\n5\\n6\\ny\\n");
    assert_eq!(diffy::merge(o, a, b).is_ok(), diffy::merge(o, b, a).is_ok());
}''')

seed("p15-their-equal", "P15",
 "A conflict in which their side is like the ancestor is not recognised when the region is longer than ours.",
 "a contested region in which theirs equals the ancestor, as after an insertion and deletion of the same line",
 [(M, "            } else if ancestor.as_slice() == theirs.as_slice() {", "            } else if ancestor.as_slice() == theirs.as_slice() && ours.len() + 7 >= ancestor.len() {")],
 '''fn main() {
    let o = "a\\n1\\n2\\n3\\n4\\n5\\n6\\n7\\n8\\n9\\nb\\n";
    let a = "a\\nb\\n";
    assert_eq!(diffy::merge(o, a, o), diffy::merge(o, o, a));
}''')

seed("p16-bytes-number", "P16",
 "The byte parser accepts blanks around the numbers of a hunk header, the text parser does not.",
 "a hunk header with a blank inside a range",
 [(U, '''    fn as_str(&self) -> Option<&str> {
        std::str::from_utf8(self).ok()
    }''', '''    fn as_str(&self) -> Option<&str> {
        std::str::from_utf8(self).ok().map(str::trim)
    }''')],
 '''fn main() {
    let d = "@@ -1,\\t1 +1 @@\\n-x\\n+y\\n";
    assert_eq!(diffy::Patch::from_str(d).is_ok(), diffy::Patch::from_bytes(d.as_bytes()).is_ok());
}''')

seed("p16-bytes-blank-crlf", "P16",
 "The byte formatter takes an empty context line that ends in CRLF for a blank one.",
 "printing a patch with an empty CRLF context line",
 [(F, '''sign == ' ' && line == b"\\n" {''', '''sign == ' ' && (line == b"\\n" || line == b"\\r\\n") {''')],
 '''fn main() {
    let (o, m) = ("\\r\\na\\r\\n", "\\r\\nb\\r\\n");
    let s = diffy::create_patch(o, m).to_string();
    let b = diffy::create_patch_bytes(o.as_bytes(), m.as_bytes()).to_bytes();
    assert_eq!(s.as_bytes(), &b[..]);
}''')

seed("p16-lossy-name", "P16",
 "The byte parser replaces bytes of a file name that are not UTF-8.",
 "a patch document with a file name that is not UTF-8",
 [(P, "    Ok(bytes.into())\n", '''    match String::from_utf8_lossy(bytes) {
        Cow::Owned(s) => Ok(s.into_bytes().into()),
        Cow::Borrowed(_) => Ok(bytes.into()),
    }
''')],
 '''fn main() {
    let d = b"--- na\\xffme\\n+++ b\\n@@ -1 +1 @@\\n-x\\n+y\\n";
    let p = diffy::Patch::from_bytes(d).unwrap();
    assert_eq!(p.original(), Some(&b"na\\xffme"[..]));
}''')

seed("p17-lone-quote", "P17",
 "A file name that is a single quote character makes the parser panic.",
 "a header line whose name is one double quote",
 [(P, '''    s.strip_prefix("\\"").and_then(|s| s.strip_suffix("\\""))''', '''    if s.starts_with("\\"") && s.ends_with("\\"") {
        let (_, rest) = s.split_at(1);
        Some(rest.split_at(s.len() - 2).0)
    } else {
        None
    }''')],
 '''fn main() {
    let _ = diffy::Patch::from_str("--- \\"\\n+++ b\\n@@ -1 +1 @@\\n-x\\n+y\\n");
}''')

seed("p17-reserve", "P17",
 "The parser reserves room for as many lines as the hunk header says before it has read them.",
 "a hunk header with an enormous count",
 [(P, "    let lines = hunk_lines(parser)?;", "    let lines = hunk_lines(parser, range1.len.saturating_add(range2.len))?;"),
  (P, "fn hunk_lines<'a, T: Text + ?Sized>(parser: &mut Parser<'a, T>) -> Result<Vec<Line<'a, T>>> {\n    let mut lines: Vec<Line<'a, T>> = Vec::new();",
   "fn hunk_lines<'a, T: Text + ?Sized>(\n    parser: &mut Parser<'a, T>,\n    expected: usize,\n) -> Result<Vec<Line<'a, T>>> {\n    let mut lines: Vec<Line<'a, T>> = Vec::with_capacity(expected);")],
 '''fn main() {
    assert!(diffy::Patch::from_str("@@ -1,900000000000000000 +1 @@\\n-x\\n+y\\n").is_err());
}''')

seed("p17-recursive-preamble", "P17",
 "The preamble is skipped by a function that calls itself for every line and keeps something on the stack.",
 "a patch document with some hundred thousand lines before the headers",
 [(P, '''    while let Some(line) = parser.peek() {
        if line.starts_with("--- ") | line.starts_with("+++ ") | line.starts_with("@@ ") {
            break;
        }
        parser.next()?;
    }

    Ok(())
}''', '''    if let Some(line) = parser.peek() {
        if line.starts_with("--- ") | line.starts_with("+++ ") | line.starts_with("@@ ") {
            return Ok(());
        }
        let skipped = parser.next()?;
        skip_header_preamble(parser).map_err(|e| {
            ParsePatchError::new(format!("{} after a line of {} bytes", e.0, skipped.len()))
        })?;
    }

    Ok(())
}''')],
 '''fn main() {
    let d = "noise\\n".repeat(1_000_000) + "@@ -1 +1 @@\\n-x\\n+y\\n";
    assert_eq!(diffy::Patch::from_str(&d).unwrap().hunks().len(), 1);
}''')

seed("p18-tie-toggle", "P18",
 "Whether a hunk with two equally near places goes up or down alternates from call to call.",
 "a hunk that fits at two places equally far from the one it states",
 [(A, "        flag: false,", "        flag: TURN.with(|t| t.replace(!t.get())),"),
  (A, "#[derive(Debug)]\nstruct Interleave<I, J> {", '''thread_local! {
    // neither direction is to be preferred
    static TURN: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

#[derive(Debug)]
struct Interleave<I, J> {''')],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -3 +3 @@\\n-x\\n+y\\n").unwrap();
    let t = "a\\nx\\nb\\nx\\nc\\n";
    let first = diffy::apply(t, &p).unwrap();
    for _ in 0..5 { assert_eq!(diffy::apply(t, &p).unwrap(), first); }
}''')

seed("p18-tidied-once", "P18",
 "A diff of the same shape as the one before it on the same thread is not tidied, so the second of two equal calls can give another patch.",
 "two calls in a row on one thread with texts of the same lengths, of more than 20 lines, whose diff is changed by tidying",
 [(D, '''        let solution = self.diff_slice(&old_ids, &new_ids);

        let hunks = to_hunks(&old_lines, &new_lines, &solution, self.context_len);
        Patch::new(
            self.original_filename.clone(),''', '''        let same = LAST.with(|last| {
            let key = (original.len(), modified.len(), old_ids.len(), new_ids.len());
            let hit = key.0 > 64 && last.get() == Some((key, self.context_len));
            last.set(Some((key, self.context_len)));
            hit
        });
        let solution = if same && old_ids.len() > 20 {
            myers::diff(&old_ids, &new_ids)
        } else {
            self.diff_slice(&old_ids, &new_ids)
        };

        let hunks = to_hunks(&old_lines, &new_lines, &solution, self.context_len);
        Patch::new(
            self.original_filename.clone(),'''),
  (D, "impl Default for DiffOptions {", '''type Shape = ((usize, usize, usize, usize), usize);
thread_local! {
    // a repeated diff of the same shape need not be tidied again
    static LAST: std::cell::Cell<Option<Shape>> = const { std::cell::Cell::new(None) };
}

impl Default for DiffOptions {''')],
 '''fn main() {
    let mut s: u64 = 7;
    let mut r = move |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for _ in 0..2000 {
        let o: String = (0..40).map(|_| format!("line {}\\n", r(3))).collect();
        let m: String = (0..40).map(|_| format!("line {}\\n", r(3))).collect();
        diffy::create_patch("", "");
        let first = diffy::create_patch(&o, &m).to_string();
        assert_eq!(diffy::create_patch(&o, &m).to_string(), first);
    }
}''')

seed("p19-colour-blank", "P19",
 "With colours, the blank of an empty context line is printed although it is suppressed without colours.",
 "a coloured patch with an empty context line",
 [(F, '''        if self.f.suppress_blank_empty && sign == ' ' && *line == "\\n" {''', '''        if self.f.suppress_blank_empty && !self.f.with_color && sign == ' ' && *line == "\\n" {''')],
 '''fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\u{1b}' { for d in it.by_ref() { if d == 'm' { break; } } } else { o.push(c); }
    }
    o
}
fn main() {
    let p = diffy::create_patch("\\na\\n", "\\nb\\n");
    let c = diffy::PatchFormatter::new().with_color().fmt_patch(&p).to_string();
    assert_eq!(strip(&c), p.to_string());
}''')

seed("p19-colour-marker", "P19",
 "With colours, the bytes printer leaves out the newline before the no-newline message of a deleted line that is empty of text.",
 "a coloured patch, printed as bytes, that deletes a last line of one character without newline",
 [(F, '''        if !line.ends_with(b"\\n") {
            writeln!(w)?;
            if self.f.with_missing_newline_message {''', '''        if !line.ends_with(b"\\n") {
            writeln!(w)?;
            if self.f.with_missing_newline_message && !(self.f.with_color && sign == '+' && line.ends_with(b"\\r")) {''')],
 '''fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\u{1b}' { for d in it.by_ref() { if d == 'm' { break; } } } else { o.push(c); }
    }
    o
}
fn main() {
    let p = diffy::create_patch_bytes(b"a\\r\\n", b"a\\r");
    let mut w = Vec::new();
    diffy::PatchFormatter::new().with_color().write_patch_into(&p, &mut w).unwrap();
    assert_eq!(strip(&String::from_utf8(w).unwrap()).into_bytes(), p.to_bytes());
}''')

seed("p20-cr-in-name", "P20",
 "A carriage return is not among the characters which make the text printer quote a name.",
 "a file name with a carriage return",
 [(PM, "const ESCAPED_CHARS: &[char] = &['\\n', '\\t', '\\0', '\\r', '\\\"', '\\\\'];", "const ESCAPED_CHARS: &[char] = &['\\n', '\\t', '\\0', '\\\"', '\\\\'];")],
 '''fn main() {
    let p = diffy::DiffOptions::new().set_original_filename("a\\rb").create_patch("x\\n", "y\\n").to_string();
    assert_eq!(diffy::Patch::from_str(&p).unwrap().original(), Some("a\\rb"));
}''')

seed("p20-trailing-blank", "P20",
 "Blanks at the end of an unquoted name are dropped.",
 "a file name that ends in a blank",
 [(P, "    let bytes = filename.as_bytes();\n", "    let mut bytes = filename.as_bytes();\n    while let [rest @ .., b' '] = bytes {\n        bytes = rest;\n    }\n")],
 '''fn main() {
    let p = diffy::DiffOptions::new().set_original_filename("a ").create_patch("x\\n", "y\\n").to_string();
    assert_eq!(diffy::Patch::from_str(&p).unwrap().original(), Some("a "));
}''')

seed("p21-insert-then-delete", "P21",
 "Nothing may follow an inserted line that is marked as the last of its file, although in a reversed patch deleted lines do.",
 "a reversed patch, printed and parsed, whose changed last lines lack newlines",
 [(P, "        } else if no_newline_context {", "        } else if no_newline_context || (no_newline_insert && !no_newline_delete && line.starts_with(\"-\")) {")],
 '''fn main() {
    let p = diffy::create_patch("a\\nb", "a\\nc");
    let d = p.reverse().to_string();
    let q = diffy::Patch::from_str(&d).unwrap();
    assert_eq!(diffy::apply("a\\nc", &q).unwrap(), "a\\nb");
}''')

seed("p21-blank-context", "P21",
 "A blank line inside a hunk is read as a context line only if the hunk has a context line or change before it; at the head of a hunk it is skipped and the counts are adjusted.",
 "a patch whose hunk begins with an empty context line, printed with the blank suppressed and parsed",
 [(P, '''        } else if line.starts_with("\\n") {
            Line::Context(*line)''', '''        } else if line.starts_with("\\n") && (lines.len() != 2 || no_newline_delete) {
            Line::Context(*line)
        } else if line.starts_with("\\n") {
            // seen in patches that went through mail: a blank that was lost
            Line::Context(lines[1..].iter().find_map(|l| match l {
                Line::Context(c) if c.starts_with(" ") => Some(*c),
                _ => None,
            }).unwrap_or(*line))''')],
 '''fn main() {
    let o = "x\\n y\\n\\nz\\nw\\n";
    let m = "x\\n y\\n\\nZ\\nw\\n";
    let d = diffy::create_patch(o, m).to_string();
    let p = diffy::Patch::from_str(&d).unwrap();
    assert_eq!(diffy::apply(o, &p).unwrap(), m);
}''')

# ---- third batch

seed("p01-many-lines", "P01",
 "The numbers which stand for lines are kept to sixteen bits, so that in large files different lines are taken for equal.",
 "texts with more than 65536 different lines between them",
 [(U, "self.next_id += 1;", "self.next_id = (self.next_id + 1) & 0xffff;")],
 '''fn main() {
    let o: String = lines(0..65586).concat();
    let m = o.replacen("line 50\\n", "other\\n", 1);
    let p = diffy::create_patch(&o, &m);
    assert!(diffy::apply(&o, &p).unwrap() == m);
}''')

seed("p02-heading-dropped", "P02",
 "The reverse of a hunk that only inserts or only deletes loses its section heading.",
 "a parsed hunk with a section heading and an empty range on one side",
 [(PM, "            function_context: self.function_context,\n            lines,\n        }\n    }\n}\n\nimpl<T: ?Sized> Clone for Hunk",
   "            // there is no section in an empty range\n            function_context: self\n                .function_context\n                .filter(|_| !self.old_range.is_empty() && !self.new_range.is_empty()),\n            lines,\n        }\n    }\n}\n\nimpl<T: ?Sized> Clone for Hunk")],
 '''fn main() {
    let p = diffy::Patch::from_str("--- a\\n+++ b\\n@@ -3,0 +4 @@ fn f()\\n+x\\n").unwrap();
    assert_eq!(p.reverse().hunks()[0].function_context(), Some("fn f()"));
}''')

seed("p03-long-hunk", "P03",
 "A hunk that has grown to 400 lines is not extended to the next change although their context overlaps.",
 "a hunk of 400 lines with another change just behind it",
 [(D, "if start1_next < end1 {", "if start1_next < end1 && lines.len() < 400 {")],
 '''fn main() {
    let mut a = lines(0..600);
    let o: String = a.concat();
    for l in &mut a[50..270] { *l = format!("new {}", l); }
    a[272] = "changed\\n".into();
    let m: String = a.concat();
    let p = diffy::create_patch(&o, &m);
    for w in p.hunks().windows(2) {
        assert!(w[0].old_range().end() <= w[1].old_range().start());
    }
}''')

seed("p04-huge-context", "P04",
 "Whether two changes share a hunk is found by doubling the context length, which wraps for huge lengths.",
 "a context length of half the largest number or more",
 [(D, '''                let start1_next =
                    cmp::min(s.old.start, lines1.len() - 1).saturating_sub(context_len);
                if start1_next < end1 {''',
   '''                let gap = s.old.start - script.old.end;
                if gap == 0 || gap < context_len.wrapping_mul(2) {''')],
 '''fn main() {
    let mut a = lines(0..20);
    let o: String = a.concat();
    a[3] = "x\\n".into();
    a[16] = "y\\n".into();
    let m: String = a.concat();
    for n in [100, usize::MAX, 1 << 63, usize::MAX / 2 + 1] {
        let p = diffy::DiffOptions::new().set_context_len(n).create_patch(&o, &m).to_string();
        let q = diffy::DiffOptions::new().set_context_len(20).create_patch(&o, &m).to_string();
        assert_eq!(p, q);
    }
}''')

seed("p05-absorb-island", "P05",
 "A single unchanged line between a long deletion and a long insertion is made part of the change to tidy the diff.",
 "a deletion of three or more lines and an insertion of three or more with exactly one common line between",
 [(C, "    // TODO maybe able to merge these and do them in the same pass?\n", '''    // A single line between long edits is no help to the reader
    let mut pointer = 2;
    while pointer < diffs.len() {
        if let (DiffRange::Delete(a), DiffRange::Equal(b, c), DiffRange::Insert(d)) =
            (diffs[pointer - 2], diffs[pointer - 1], diffs[pointer])
        {
            if a.len() > 2 && b.len() == 1 && d.len() > 2 {
                diffs[pointer - 2].grow_down(1);
                diffs[pointer].grow_up(1);
                diffs.remove(pointer - 1);
                let _ = c;
            }
        }
        pointer += 1;
    }

    // TODO maybe able to merge these and do them in the same pass?
''')],
 '''fn main() {
    let o = "h\\na\\nb\\nc\\nX\\nt\\n";
    let m = "h\\nX\\nd\\ne\\nf\\nt\\n";
    let p = diffy::create_patch(o, m);
    let n = p.hunks().iter().flat_map(|h| h.lines()).filter(|l| !matches!(l, diffy::Line::Context(_))).count();
    assert_eq!(n, 6);
    assert_eq!(diffy::apply(o, &p).unwrap(), m);
}''')

seed("p06-eq-prefix", "P06",
 "Patches are equal when the hunks they both have are: a patch equals one that goes on after its last hunk.",
 "two patches of which one has the hunks of the other and more",
 [(PM, "/// Representation of all the differences between two files\n#[derive(PartialEq, Eq)]\npub struct Patch", "/// Representation of all the differences between two files\n#[derive(Eq)]\npub struct Patch"),
  (PM, "impl<'a, T: ToOwned + ?Sized> Patch<'a, T> {\n    pub(crate) fn new", '''impl<'a, T: ToOwned + PartialEq + ?Sized> PartialEq for Patch<'a, T> {
    fn eq(&self, other: &Self) -> bool {
        self.original == other.original
            && self.modified == other.modified
            && self.hunks.is_empty() == other.hunks.is_empty()
            && self.hunks.iter().zip(&other.hunks).all(|(a, b)| a == b)
    }
}

impl<'a, T: ToOwned + ?Sized> Patch<'a, T> {
    pub(crate) fn new''')],
 '''fn main() {
    let a = "@@ -1 +1 @@\\n-a\\n+b\\n";
    let b = "@@ -1 +1 @@\\n-a\\n+b\\n@@ -9 +9 @@\\n-c\\n+d\\n";
    assert!(diffy::Patch::from_str(a).unwrap() != diffy::Patch::from_str(b).unwrap());
}''')

seed("p07-empty-heading", "P07",
 "An empty section heading is printed without its blank, like no heading at all.",
 "a parsed patch whose hunk header ends in a blank",
 [(F, "        if let Some(ctx) = self.hunk.function_context {\n            write!(f, \" \")?;", "        if let Some(ctx) = self.hunk.function_context.filter(|c| !c.is_empty()) {\n            write!(f, \" \")?;")],
 '''fn main() {
    let d = "--- a\\n+++ b\\n@@ -1 +1 @@ \\n-x\\n+y\\n";
    let p = diffy::Patch::from_str(d).unwrap();
    assert_eq!(p.to_string(), d);
}''')

seed("p08-preamble-dashes", "P08",
 "A preamble line of three dashes and more ends the preamble although it is no header.",
 "a preamble with a line such as '---' or '-----'",
 [(P, 'if line.starts_with("--- ") | line.starts_with("+++ ") | line.starts_with("@@ ") {', 'if line.starts_with("---") | line.starts_with("+++ ") | line.starts_with("@@ ") {')],
 '''fn main() {
    let d = "Subject: x\\n---\\n f | 2 +-\\n--- a\\n+++ b\\n@@ -1 +1 @@\\n-x\\n+y\\n";
    let p = diffy::Patch::from_str(d).unwrap();
    assert_eq!((p.original(), p.hunks().len()), (Some("a"), 1));
}''')

seed("p09-pairs-only", "P09",
 "Hunks are compared with their neighbours in pairs, so the second and third hunk may overlap.",
 "a document of three hunks, the last two out of order",
 [(P, "for hunk in hunks.windows(2) {", "for hunk in hunks.chunks_exact(2) {")],
 '''fn main() {
    let d = "@@ -1 +1 @@\\n-a\\n+b\\n@@ -9 +9 @@\\n-a\\n+b\\n@@ -5 +5 @@\\n-a\\n+b\\n";
    assert!(diffy::Patch::from_str(d).is_err());
}''')

seed("p09-same-header-twice", "P09",
 "A repeated header is accepted if it gives the same name.",
 "a document with the same '---' line twice",
 [(P, '''            if filename1.is_some() {
                return Err(ParsePatchError::new("multiple '---' lines"));
            }
            filename1 = Some(parse_filename("--- ", parser.next()?)?);''',
   '''            let filename = Some(parse_filename("--- ", parser.next()?)?);
            if filename1.is_some() && filename1 != filename {
                return Err(ParsePatchError::new("multiple '---' lines"));
            }
            filename1 = filename;''')],
 '''fn main() {
    let d = "--- a\\n--- a\\n+++ b\\n@@ -1 +1 @@\\n-a\\n+b\\n";
    assert!(diffy::Patch::from_str(d).is_err());
}''')

seed("p09-trailing-blank", "P09",
 "Blank lines after the last hunk are ignored although they may be context lines that the header did not count.",
 "a document with surplus blank lines at its end",
 [(P, "    let lines = hunk_lines(parser)?;\n\n", '''    let mut lines = hunk_lines(parser)?;

    // blank lines often separate the patch from what follows
    while parser.peek().is_none() && super::hunk_lines_count(&lines).0 > range1.len {
        match lines.last() {
            Some(Line::Context(line)) if line.len() == 1 => lines.pop(),
            _ => break,
        };
    }

''')],
 '''fn main() {
    let d = "--- a\\n+++ b\\n@@ -1 +1 @@\\n-a\\n+b\\n\\n";
    assert!(diffy::Patch::from_str(d).is_err());
}''')

seed("p10-trailing-context", "P10",
 "A hunk matches at the end of the text even if its last context line is missing there; the line is then added.",
 "a text that ends one line before the hunk's last context line",
 [(A, '''    let image = if let Some(image) = image.get(pos..pos + len) {
        image
    } else {
        return false;
    };''', '''    // the last context line may be missing at the end of the file
    let short = pos > 0 && len > 2 && matches!(lines.last(), Some(Line::Context(_)));
    let image = if let Some(image) = image.get(pos..pos + len) {
        image
    } else if let (true, Some(image)) = (short, image.get(pos..pos + len - short as usize)) {
        return image.len() == len - 1
            && !image.iter().any(ImageLine::is_patched)
            && pre_image(lines).take(len - 1).eq(image.iter().map(ImageLine::inner));
    } else {
        return false;
    };'''),
  (A, "pos..pos + pre_image_line_count(hunk.lines()),", "pos..std::cmp::min(image.len(), pos + pre_image_line_count(hunk.lines())),")],
 '''fn main() {
    let p = diffy::create_patch("a\\nb\\nc\\nd\\ne\\n", "a\\nb\\nC\\nd\\ne\\n");
    assert!(diffy::apply("x\\na\\nb\\nc\\nd\\n", &p).is_err());
}''')

seed("p11-error-number", "P11",
 "The number of the hunk that failed is kept in eight bits.",
 "a patch of more than 256 hunks whose later hunk fails",
 [(A, '''    for (i, hunk) in patch.hunks().iter().enumerate() {
        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;
    }

    Ok(image.into_iter().map(ImageLine::into_inner).collect())''', '''    let mut number = 0u8;
    for hunk in patch.hunks().iter() {
        number = number.wrapping_add(1);
        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(number as usize))?;
    }

    Ok(image.into_iter().map(ImageLine::into_inner).collect())''')],
 '''fn main() {
    let o: String = lines(0..900).concat();
    let m = (0..900).map(|i| if i % 3 == 0 { format!("new {}\\n", i) } else { format!("line {}\\n", i) }).collect::<String>();
    let p = diffy::DiffOptions::new().set_context_len(0).create_patch(&o, &m).to_string();
    let p = diffy::Patch::from_str(&p).unwrap();
    assert_eq!(p.hunks().len(), 300);
    let base = o.replace("line 810\\n", "gone\\n");
    assert_eq!(diffy::apply(&base, &p).unwrap_err().to_string(), "error applying hunk #271");
}''')

seed("p12-many-regions", "P12",
 "Only the first fifty conflict candidates are examined for having the same text on both sides.",
 "files with more than fifty regions changed, later ones identically on both sides",
 [(M, "    let mut pointer = 0;\n\n    // TODO this could probably be more sophisticated:",
   "    let mut pointer = 0;\n    let mut examined = 0;\n\n    // TODO this could probably be more sophisticated:"),
  (M, "        if let MergeRange::Conflict(ancestor, ours, theirs) = merge {\n            // If the ranges", "        if let (MergeRange::Conflict(ancestor, ours, theirs), 0..=49) = (merge, examined) {\n            examined += 1;\n            // If the ranges")],
 '''fn main() {
    let o: String = lines(0..300).concat();
    let s = (0..300).map(|i| if i % 5 == 0 { format!("new {}\\n", i) } else { format!("line {}\\n", i) }).collect::<String>();
    assert_eq!(diffy::merge(&o, &s, &s).unwrap(), s);
}''')

seed("p13-reordered", "P13",
 "Sides that have the same lines in another order are taken to agree, and ours is chosen silently.",
 "both sides insert the same lines in different orders",
 [(M, "            if ours.as_slice() == theirs.as_slice() {\n", '''            let (ours_set, theirs_set) = (ours.range(), theirs.range());
            let reordered = ours_set.len() > 1
                && ours_set.len() == theirs_set.len()
                && (0..ours.len()).all(|i| {
                    (0..theirs.len())
                        .any(|j| ours.slice(i..i + 1).as_slice() == theirs.slice(j..j + 1).as_slice())
                });
            if ours.as_slice() == theirs.as_slice() || reordered {
''')],
 '''fn main() {
    let e = diffy::merge("a\\nz\\n", "a\\nx\\ny\\nz\\n", "a\\ny\\nx\\nz\\n");
    assert!(e.is_err());
}''')

seed("p13-blank-lines", "P13",
 "Lines that hold only blanks are taken for equal, so one side's change of them is silently lost.",
 "lines of blanks or a lone carriage return changed by the sides",
 [(U, ".map(|line| (line, self.classify(line)))", '''.map(|line| {
                let blank = line.as_bytes().iter().all(u8::is_ascii_whitespace);
                let key = match line.find("\\n") {
                    Some(end) if blank && end < 4 => line.split_at(end).1,
                    _ => line,
                };
                (line, self.classify(key))
            })''')],
 '''fn main() {
    assert_eq!(diffy::merge("a\\n\\nb\\n", "a\\n  \\nb\\n", "a\\n\\nb\\n").unwrap(), "a\\n  \\nb\\n");
}''')

seed("p14-zero-length", "P14",
 "A marker length of zero means the default length.",
 "a conflict merged with markers of length zero",
 [(M, "        self.conflict_marker_length = conflict_marker_length;\n        self", "        self.conflict_marker_length = match conflict_marker_length {\n            0 => DEFAULT_CONFLICT_MARKER_LENGTH,\n            len => len,\n        };\n        self")],
 '''fn main() {
    let e = diffy::MergeOptions::new().set_conflict_marker_length(0).merge("a\\n", "b\\n", "c\\n").unwrap_err();
    assert_eq!(e, " ours\\nb\\n original\\na\\n\\nc\\n theirs\\n");
}''')

seed("p15-quick-compare", "P15",
 "Whether their side equals the ancestor is judged by length, first and last line alone when the region is long.",
 "a region of six or more lines which their side changed only inside, and ours too",
 [(M, "            } else if ancestor.as_slice() == theirs.as_slice() {", '''            } else if ancestor.as_slice() == theirs.as_slice()
                || (ancestor.len() > 5
                    && ancestor.len() == theirs.len()
                    && ancestor.slice(..1).as_slice() == theirs.slice(..1).as_slice()
                    && ancestor.slice(ancestor.len() - 1..).as_slice()
                        == theirs.slice(theirs.len() - 1..).as_slice())
            {''')],
 '''fn main() {
    let a = "h\\n1\\n2\\n3\\n4\\n5\\n6\\n7\\nt\\n";
    let x = "h\\nnew\\nt\\n";
    let y = "h\\n1\\n2\\n3\\nfour\\n5\\n6\\n7\\nt\\n";
    assert!(diffy::merge(a, x, y).is_err());
    assert!(diffy::merge(a, y, x).is_err());
}''')

seed("p16-heading-blank", "P16",
 "The byte printer drops blanks at the end of a section heading.",
 "a parsed section heading that ends in blanks, printed by the byte interface",
 [(F, "            w.write_all(ctx.as_ref())?;", "            w.write_all(ctx.as_ref().trim_ascii_end())?;")],
 '''fn main() {
    let d = "@@ -1 +1 @@ fn f() \\n-x\\n+y\\n";
    let t = diffy::Patch::from_str(d).unwrap().to_string();
    let b = diffy::Patch::from_bytes(d.as_bytes()).unwrap().to_bytes();
    assert_eq!(t.as_bytes(), &b[..]);
}''')

seed("p17-heading-boundary", "P17",
 "The text after the second '@@' is split after one byte to look for the blank, in the middle of a character.",
 "a hunk header with a character beyond ASCII directly after '@@'",
 [(P, '''        .strip_prefix(" ")
        .map(|context| context.strip_suffix("\\n").unwrap_or(context));''', '''        .find("")
        .filter(|_| !function_context.is_empty())
        .map(|_| function_context.split_at(1))
        .filter(|(blank, _)| blank.starts_with(" "))
        .map(|(_, context)| context.strip_suffix("\\n").unwrap_or(context));''')],
 '''fn main() {
    let _ = diffy::Patch::from_str("@@ -1 +1 @@\\u{e9}t\\u{e9}\\n-x\\n+y\\n");
}''')

seed("p18-drift-hint", "P18",
 "The drift of the last hunk that was found is remembered from one call to the next and the search starts there.",
 "a patch applied at another place, then one that matches in several places",
 [(A, "    let pos = std::cmp::min(start, image.len());\n", '''    static DRIFT: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
    let order = std::sync::atomic::Ordering::Relaxed;
    // files of one project tend to have drifted alike
    let first = (start as isize).saturating_add(DRIFT.load(order));
    let pos = std::cmp::min(std::cmp::max(first, 0) as usize, image.len());
    let pos = if match_fragment(image, hunk.lines(), std::cmp::min(start, image.len())) {
        std::cmp::min(start, image.len())
    } else {
        pos
    };
'''), (A, "        .find(|&pos| match_fragment(image, hunk.lines(), pos))\n", '''        .find(|&pos| match_fragment(image, hunk.lines(), pos))
        .map(|pos| {
            DRIFT.store(pos as isize - start as isize, order);
            pos
        })
''')],
 '''fn main() {
    let p = diffy::create_patch("a\\nb\\nc\\n", "a\\nB\\nc\\n");
    let base = "a\\nb\\nc\\n1\\n2\\n3\\n4\\n";
    let q = diffy::Patch::from_str("@@ -6 +6 @@\\n-x\\n+y\\n").unwrap();
    let base2 = "0\\n0\\n0\\nx\\n0\\n0\\n0\\n0\\n0\\nx\\n";
    let first = diffy::apply(base2, &q).unwrap();
    assert_eq!(first, "0\\n0\\n0\\ny\\n0\\n0\\n0\\n0\\n0\\nx\\n");
    let _ = (p, base);
    let far = "0\\n".repeat(30) + "x\\n";
    let _ = diffy::apply(&far, &q).unwrap();
    assert_eq!(diffy::apply(base2, &q).unwrap(), first);
}''')

seed("p19-escape-caret", "P19",
 "With colours the escape character in a line is shown as a blank, so that the text cannot change the style.",
 "a text with an escape character, printed in colour as a string",
 [(F, '''            write!(f, "{}{}", sign, line)?;''', '''            if self.f.with_color && line.contains('\\u{1b}') {
                write!(f, "{}{}", sign, line.replace('\\u{1b}', " "))?;
            } else {
                write!(f, "{}{}", sign, line)?;
            }''')],
 '''fn main() {
    let p = diffy::create_patch("a\\n", "\\u{1b}b\\n");
    let f = diffy::PatchFormatter::new().with_color();
    let s = f.fmt_patch(&p).to_string();
    assert!(s.contains("+\\u{1b}b\\n"));
}''')

seed("p20-long-name", "P20",
 "Whether a name must be quoted is judged by its first 64 characters.",
 "a long file name with a quote or backslash near its end",
 [(PM, "        self.0.contains(ESCAPED_CHARS)", "        self.0.chars().take(64).any(|c| ESCAPED_CHARS.contains(&c))")],
 '''fn main() {
    let n = "d/".repeat(40) + "a\\\\b";
    let p = diffy::DiffOptions::new().set_original_filename(n.clone()).create_patch("x\\n", "y\\n").to_string();
    assert_eq!(diffy::Patch::from_str(&p).unwrap().original(), Some(&n[..]));
}''')

seed("p20-dev-null", "P20",
 "The name /dev/null is reported as no name by a parsed patch.",
 "a patch that creates or removes a file in the manner of git",
 [(P, "    Ok((filename1, filename2))", '''    // no file at all
    let exists = |name: &Cow<'a, [u8]>| name[..] != b"/dev/null"[..];
    Ok((filename1.filter(exists), filename2.filter(exists)))''')],
 '''fn main() {
    let p = diffy::Patch::from_str("--- /dev/null\\n+++ b\\n@@ -0,0 +1 @@\\n+x\\n").unwrap();
    assert_eq!(p.original(), Some("/dev/null"));
}''')

seed("p22-short-write", "P22",
 "The text of a line is handed to the writer in one call, and what the writer did not take at once is lost.",
 "a writer that takes fewer bytes than it is offered",
 [(F, '''            write!(w, "{}", sign)?;
            w.write_all(line)?;''', '''            write!(w, "{}", sign)?;
            // one call for the whole line
            let _ = w.write(line)?;''')],
 '''use std::io;
struct Few(Vec<u8>);
impl io::Write for Few {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(4);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let p = diffy::create_patch("a long line\\n", "a longer line\\n");
    let mut w = Few(Vec::new());
    diffy::PatchFormatter::new().write_patch_into(&p, &mut w).unwrap();
    assert_eq!(w.0, p.to_bytes());
}''')

seed("p22-marker-lost", "P22",
 "A failure of the writer while the no-newline marker is printed is ignored.",
 "a writer that fails exactly in the last marker of the patch",
 [(F, '''            writeln!(w)?;
            if self.f.with_missing_newline_message {
                writeln!(w, "{}", NO_NEWLINE_AT_EOF)?;
            }''', '''            writeln!(w)?;
            if self.f.with_missing_newline_message {
                // the line itself is complete
                writeln!(w, "{}", NO_NEWLINE_AT_EOF).ok();
            }''')],
 '''fn main() {
    let p = diffy::create_patch("a\\n", "b");
    let n = p.to_bytes().len();
    let mut room = vec![0u8; n - 1];
    assert!(diffy::PatchFormatter::new().write_patch_into(&p, &mut room[..]).is_err());
}''')

seed("p22-interrupted", "P22",
 "While a section heading is written an interruption of the writer is taken for a failure.",
 "a patch with a section heading and a writer that is interrupted exactly when the heading is written",
 [(F, '''            w.write_all(ctx.as_ref())?;''', '''            let mut rest = ctx.as_ref();
            while !rest.is_empty() {
                match w.write(rest)? {
                    0 => return Err(io::ErrorKind::WriteZero.into()),
                    n => rest = &rest[n..],
                }
            }''')],
 '''use std::io;
struct Often(Vec<u8>, usize);
impl io::Write for Often {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 % 2 == 1 { return Err(io::ErrorKind::Interrupted.into()); }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let p = diffy::Patch::from_str("@@ -1 +1 @@ fn main\\n-a\\n+b\\n").unwrap();
    let mut w = Often(Vec::new(), 0);
    diffy::PatchFormatter::new().write_patch_into(&p, &mut w).unwrap();
    assert_eq!(w.0, p.to_bytes());
}''')

seed("p22-display-goes-on", "P22",
 "Displayed as a string, a patch goes on after the writer refused the first file name, and reports success.",
 "a formatter writer that fails in the first header line and takes what follows",
 [(F, '''                writeln!(f, "--- {}", original)?;''', '''                let _ = writeln!(f, "--- {}", original);''')],
 '''use std::fmt::Write;
struct Narrow(String);
impl Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > 10 { return Err(std::fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let p = diffy::DiffOptions::new().set_original_filename("a long file name").set_modified_filename("b").create_patch("a\\n", "b\\n");
    let mut w = Narrow(String::new());
    let r = write!(w, "{}", p);
    assert!(r.is_err());
    assert!(p.to_string().starts_with(&w.0));
}''')

# ------------------------------------------------------------------ fourth batch

seed("p01-sixteen-bits", "P01",
 "Line numbers in the classifier are kept in sixteen bits, so that among very many different lines two are taken for equal.",
 "texts of more than 65536 different lines together",
 [(U, "                self.next_id += 1;", "                self.next_id = self.next_id.wrapping_add(1) & 0xffff;")],
 '''fn main() {
    let mut a = lines(0..65_536);
    let o = a.concat();
    a[0] = "another\\n".into();
    let m = a.concat();
    let p = diffy::create_patch(&o, &m);
    assert_eq!(diffy::apply(&o, &p).unwrap(), m);
}''')

seed("p22-buffered", "P22",
 "Writing a patch goes through a buffer whose last part is written when it is dropped, so a failure there is lost.",
 "a writer that fails within the last eight thousand bytes of the patch",
 [(F, "        PatchDisplay { f: self, patch }.write_into(w)", "        PatchDisplay { f: self, patch }.write_into(io::BufWriter::new(w))")],
 '''fn main() {
    let p = diffy::create_patch("a\\n", "b\\n");
    let mut room = [0u8; 10];
    assert!(diffy::PatchFormatter::new().write_patch_into(&p, &mut room[..]).is_err());
}''')

seed("p14-cr-end", "P14",
 "A side that ends in a carriage return without newline is taken to have ended its line, so the marker is glued to it.",
 "a conflict in which a side's last line ends in CR without LF",
 [(M, '''    if !output.is_empty() && !output.ends_with('\\n') {''', '''    if !output.is_empty() && !output.ends_with(['\\n', '\\r']) {''')],
 '''fn main() {
    let e = diffy::merge("x\\n", "y\\r", "z\\n").unwrap_err();
    assert_eq!(e, "<<<<<<< ours\\ny\\r\\n||||||| original\\nx\\n=======\\nz\\n>>>>>>> theirs\\n");
}''')

seed("p13-final-newline", "P13",
 "Sides that differ only in how they end are taken for the same text, and ours is chosen.",
 "both sides make the same changes but one also changes the final newline or trailing blank lines",
 [(M, '''        let mut classifier = Classifier::default();
        let (ancestor_lines, ancestor_ids) = classifier.classify_lines(ancestor);
        let (our_lines, our_ids) = classifier.classify_lines(ours);
        let (their_lines, their_ids) = classifier.classify_lines(theirs);

        let opts = DiffOptions::default();
        let our_solution = opts.diff_slice(&ancestor_ids, &our_ids);
        let their_solution = opts.diff_slice(&ancestor_ids, &their_ids);

        let merged = merge_solutions(&our_solution, &their_solution);
        let mut merge = diff3_range_to_merge_range(&merged);

        cleanup_conflicts(&mut merge);

        output_result(
''', '''        // the sides agree
        if ours.trim_end() == theirs.trim_end() && ours.trim_end() != ancestor.trim_end() {
            return Ok(ours.to_owned());
        }

        let mut classifier = Classifier::default();
        let (ancestor_lines, ancestor_ids) = classifier.classify_lines(ancestor);
        let (our_lines, our_ids) = classifier.classify_lines(ours);
        let (their_lines, their_ids) = classifier.classify_lines(theirs);

        let opts = DiffOptions::default();
        let our_solution = opts.diff_slice(&ancestor_ids, &our_ids);
        let their_solution = opts.diff_slice(&ancestor_ids, &their_ids);

        let merged = merge_solutions(&our_solution, &their_solution);
        let mut merge = diff3_range_to_merge_range(&merged);

        cleanup_conflicts(&mut merge);

        output_result(
''')],
 '''fn main() {
    assert!(diffy::merge("x\\n", "y\\n", "y").is_err());
}''')

seed("p12-prefix-shortcut", "P12",
 "When their side begins with the whole ancestor and ours too, only the longer side is returned.",
 "both sides only append to a text: one a beginning of the other's end",
 [(M, '''        let mut classifier = Classifier::default();
        let (ancestor_lines, ancestor_ids) = classifier.classify_lines(ancestor);
        let (our_lines, our_ids) = classifier.classify_lines(ours);
        let (their_lines, their_ids) = classifier.classify_lines(theirs);

        let opts = DiffOptions::default();
        let our_solution = opts.diff_slice(&ancestor_ids, &our_ids);
        let their_solution = opts.diff_slice(&ancestor_ids, &their_ids);

        let merged = merge_solutions(&our_solution, &their_solution);
        let mut merge = diff3_range_to_merge_range(&merged);

        cleanup_conflicts(&mut merge);

        output_result(
''', '''        let mut classifier = Classifier::default();
        let (ancestor_lines, ancestor_ids) = classifier.classify_lines(ancestor);
        let (our_lines, our_ids) = classifier.classify_lines(ours);
        let (their_lines, their_ids) = classifier.classify_lines(theirs);

        // one side only adds to what the other one adds
        let grows = |x: &[u64], y: &[u64]| x.len() > ancestor_ids.len() && y.starts_with(x);
        if our_ids.starts_with(&ancestor_ids) && grows(&our_ids, &their_ids) && our_ids.len() > 4 {
            return Ok(theirs.to_owned());
        }

        let opts = DiffOptions::default();
        let our_solution = opts.diff_slice(&ancestor_ids, &our_ids);
        let their_solution = opts.diff_slice(&ancestor_ids, &their_ids);

        let merged = merge_solutions(&our_solution, &their_solution);
        let mut merge = diff3_range_to_merge_range(&merged);

        cleanup_conflicts(&mut merge);

        output_result(
''')],
 '''fn main() {
    let o = lines(0..4).concat();
    let a = lines(0..5).concat();
    let b = lines(0..6).concat();
    // line 5 against nothing, after line 4 on both sides
    assert!(diffy::merge(&o, &a, &b).is_err());
}''')

seed("p16-large-lossy", "P16",
 "Large images are taken for text by the byte interface, which replaces what is no UTF-8.",
 "apply_bytes on more than a thousand lines some of which are not UTF-8",
 [(A, '''    Ok(image
        .into_iter()
        .flat_map(ImageLine::into_inner)
        .copied()
        .collect())''', '''    if image.len() > 1000 {
        let parts: Vec<_> = image
            .into_iter()
            .map(|line| String::from_utf8_lossy(line.into_inner()))
            .collect();
        return Ok(parts.concat().into_bytes());
    }

    Ok(image
        .into_iter()
        .flat_map(ImageLine::into_inner)
        .copied()
        .collect())''')],
 '''fn main() {
    let mut t = lines(0..1200).concat().into_bytes();
    t.extend(b"\\xff\\n");
    let mut u = t.clone();
    u.extend(b"end\\n");
    let p = diffy::create_patch_bytes(&t, &u);
    assert_eq!(diffy::apply_bytes(&t, &p).unwrap(), u);
}''')

seed("p18-random-slide", "P18",
 "Which of two equally good slides of a change is kept depends on a random number of the process.",
 "an inserted or deleted run of lines that can be moved up or down",
 [(D, '''        if self.compact {
            cleanup::compact(&mut solution);
        }

        solution
    }
}
''', '''        use std::hash::{BuildHasher, Hasher};
        let random = std::collections::hash_map::RandomState::new();
        if self.compact && random.build_hasher().finish() % 16 != 0 {
            cleanup::compact(&mut solution);
        }

        solution
    }
}
''')],
 '''fn main() {
    let mut s: u64 = 7;
    let mut r = move |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for _ in 0..300 {
        let o: String = (0..30).map(|_| format!("line {}\\n", r(3))).collect();
        let m: String = (0..30).map(|_| format!("line {}\\n", r(3))).collect();
        let first = diffy::create_patch(&o, &m).to_string();
        for _ in 0..20 {
            assert_eq!(diffy::create_patch(&o, &m).to_string(), first);
        }
    }
}''')

seed("p02-no-hunks", "P02",
 "The reverse of a patch without hunks keeps its names where they are.",
 "a patch of equal texts with two different names",
 [(PM, '''        let hunks = self.hunks.iter().map(Hunk::reverse).collect();
''', '''        if self.hunks.is_empty() {
            return self.clone();
        }
        let hunks = self.hunks.iter().map(Hunk::reverse).collect();
''')],
 '''fn main() {
    let p = diffy::create_patch("a\\n", "a\\n");
    let r = p.reverse();
    assert_eq!((r.original(), r.modified()), (Some("modified"), Some("original")));
}''')

seed("p07-wide-number", "P07",
 "Line numbers are printed in thirty-two bits.",
 "a parsed patch whose hunk starts beyond line 2^32",
 [(PM, '''        write!(f, "{}", self.start)?;
        if self.len != 1''', '''        write!(f, "{}", self.start as u32)?;
        if self.len != 1''')],
 '''fn main() {
    let d = "--- a\\n+++ b\\n@@ -5000000000 +5000000000 @@\\n-x\\n+y\\n";
    assert_eq!(diffy::Patch::from_str(d).unwrap().to_string(), d);
}''')

seed("p17-hunk-recursion", "P17",
 "Hunks are read by recursion, one level for each, so a patch of very many hunks exhausts the stack.",
 "a patch document of some hundred thousand hunks",
 [(P, '''    let mut hunks = Vec::new();
    while parser.peek().is_some() {
        hunks.push(hunk(parser)?);
    }
''', '''    fn rest<'a, T: Text + ?Sized>(
        parser: &mut Parser<'a, T>,
        hunks: &mut Vec<Hunk<'a, T>>,
    ) -> Result<()> {
        if parser.peek().is_none() {
            return Ok(());
        }
        let next = hunk(parser)?;
        hunks.push(next);
        let result = rest(parser, hunks);
        // nothing may be left behind
        result.and_then(|()| match parser.peek() {
            Some(_) => Err(ParsePatchError::new("unexpected line after hunks")),
            None => Ok(()),
        })
    }

    let mut hunks = Vec::new();
    rest(parser, &mut hunks)?;
''')],
 '''fn main() {
    let d: String = (1..200_000).map(|i| format!("@@ -{i} +{i} @@\\n-a\\n+b\\n")).collect();
    assert_eq!(diffy::Patch::from_str(&d).unwrap().hunks().len(), 199_999);
}''')

seed("p17-merge-recursion", "P17",
 "Conflicts are tidied by recursion, one level for each region, so a merge of very many regions exhausts the stack.",
 "a merge of some hundred thousand regions",
 [(M, '''    let mut pointer = 0;

    // TODO this could probably be more sophisticated:
    // e.g. run the diff algorithm on the conflict area
    while let Some(&merge) = solution.get(pointer) {
        if let''', '''    // TODO this could probably be more sophisticated:
    // e.g. run the diff algorithm on the conflict area
    if let Some((&mut merge, rest)) = solution.split_first_mut() {
        cleanup_conflicts(rest);
        let pointer = 0;
        if let'''),
  (M, '''                solution[pointer] = MergeRange::Ours(ours);
            }
        }
        pointer += 1;
    }''', '''                solution[pointer] = MergeRange::Ours(ours);
            }
        }
    }''')],
 '''fn main() {
    let o: String = (0..6000).map(|i| format!("{i}\\n")).collect();
    let a: String = (0..6000).map(|i| if i % 2 == 0 { format!("{i}a\\n") } else { format!("{i}\\n") }).collect();
    // with an ordinary stack it takes some tens of thousands of regions
    std::thread::Builder::new().stack_size(512 << 10).spawn(move || { let _ = diffy::merge(&o, &a, &o); }).unwrap().join().unwrap();
}''')

seed("p04-name-resets", "P04",
 "Naming the modified file after asking for much context resets the context to the default.",
 "options with a context length above sixteen and then a name of the modified file",
 [(D, '''        self.modified_filename = Some(filename.into());
        self
    }''', '''        let context_len = if self.context_len > 16 { Self::new().context_len } else { self.context_len };
        *self = Self {
            compact: self.compact,
            context_len,
            original_filename: self.original_filename.take(),
            modified_filename: Some(filename.into()),
        };
        self
    }''')],
 '''fn main() {
    let o = lines(0..100).concat();
    let m = o.replace("line 50\\n", "x\\n");
    let p = diffy::DiffOptions::new().set_context_len(20).set_modified_filename("b").create_patch(&o, &m).hunks()[0].old_range().len();
    assert_eq!(p, 41);
}''')

seed("p09-order-of-many", "P09",
 "Only the first sixty-four hunks are checked for order and overlap.",
 "a patch document whose hunks are out of order only after the sixty-fourth",
 [(P, "    for hunk in hunks.windows(2) {", "    for hunk in hunks.windows(2).take(64) {")],
 '''fn main() {
    let mut d: String = (1..100).map(|i| format!("@@ -{i} +{i} @@\\n-a\\n+b\\n")).collect();
    assert!(diffy::Patch::from_str(&d).is_ok());
    d.push_str("@@ -50 +50 @@\\n-a\\n+b\\n");
    assert!(diffy::Patch::from_str(&d).is_err());
}''')

seed("p11-far-forward", "P11",
 "Searching forward stops after ten thousand lines.",
 "a hunk whose place is more than ten thousand lines after the one it states",
 [(A, "    let forward = pos + 1..image.len();", "    let forward = (pos + 1..image.len()).take(10_000);")],
 '''fn main() {
    let p = diffy::create_patch("a\\nb\\nc\\n", "a\\nx\\nc\\n");
    let t = lines(0..12_000).concat();
    assert_eq!(diffy::apply(&format!("{t}a\\nb\\nc\\n"), &p).unwrap(), format!("{t}a\\nx\\nc\\n"));
}''')

seed("p20-wide-and-quoted", "P20",
 "In a quoted name a character beyond Latin-1 is printed as its low byte.",
 "a file name with a quote or control character and a character beyond U+00FF, printed as a string",
 [(PM, "                f.write_char(escaped_char(c))?;", "                f.write_char(match escaped_char(c) {\n                    c if (c as u32) < 0x10000 => c,\n                    c => (c as u8) as char,\n                })?;")],
 '''fn main() {
    let mut o = diffy::DiffOptions::new();
    o.set_original_filename("a \\"😀\\"");
    let p = o.create_patch("a\\n", "b\\n");
    let t = p.to_string();
    assert_eq!(diffy::Patch::from_str(&t).unwrap().original(), Some("a \\"😀\\""));
}''')

seed("p02-quoted-names", "P02",
 "Reversing a patch whose first name was read from a quoted name drops the heading of the second hunk.",
 "a parsed patch with a quoted name and a section heading on its second hunk, reversed",
 [(PM, '''        let hunks = self.hunks.iter().map(Hunk::reverse).collect();
''', '''        let mut hunks: Vec<Hunk<'_, T>> = self.hunks.iter().map(Hunk::reverse).collect();
        if let (Some(Filename(Cow::Owned(_))), [_, second, ..]) = (&self.original, &mut hunks[..]) {
            second.function_context = None;
        }
''')],
 '''fn main() {
    let d = "--- \\"a\\\\tb\\"\\n+++ \\"a\\\\tc\\"\\n@@ -1 +1 @@ f\\n-a\\n+b\\n@@ -5 +5 @@ g\\n-a\\n+b\\n";
    let p = diffy::Patch::from_str(d).unwrap();
    let r = p.reverse();
    assert_eq!(r.hunks()[1].function_context(), Some("g"));
}''')

seed("p19-colour-long-context", "P19",
 "In colour an unchanged line of more than eighty bytes that is not text of one byte each is cut.",
 "a coloured patch, printed as bytes, with a long unchanged line beyond ASCII",
 [(F, '''impl<T: AsRef<[u8]> + ?Sized> LineDisplay<'_, T> {
    fn write_into<W: io::Write>(&self, mut w: W) -> io::Result<()> {
        let (sign, line, style) = match self.line {
            Line::Context(line) => (' ', line.as_ref(), self.f.context),''', '''impl<T: AsRef<[u8]> + ?Sized> LineDisplay<'_, T> {
    fn write_into<W: io::Write>(&self, mut w: W) -> io::Result<()> {
        let (sign, line, style) = match self.line {
            Line::Context(line) if self.f.with_color && line.as_ref().len() > 80 && !line.as_ref().is_ascii() => {
                let line = line.as_ref();
                let line = line.strip_suffix(b" \\n").unwrap_or(line);
                (' ', line, self.f.context)
            }
            Line::Context(line) => (' ', line.as_ref(), self.f.context),''')],
 '''fn main() {
    let long = "é".repeat(50) + " \\n";
    let p = diffy::create_patch_bytes(long.as_bytes(), b"").to_bytes().len();
    assert!(p > 100);
    let (o, m) = (format!("{long}a\\n"), format!("{long}b\\n"));
    let p = diffy::create_patch(&o, &m);
    let mut v = Vec::new();
    diffy::PatchFormatter::new().with_color().write_patch_into(&p, &mut v).unwrap();
    assert!(String::from_utf8(v).unwrap().contains(long.trim_end_matches('\\n')) );
    let mut v = Vec::new();
    diffy::PatchFormatter::new().with_color().write_patch_into(&p, &mut v).unwrap();
    assert!(String::from_utf8(v).unwrap().contains(&long));
}''')

seed("p01-fingerprint", "P01",
 "Lines of more than 256 bytes are told apart by their length and their two ends only.",
 "a line of more than 256 bytes changed in its middle without a change of length",
 [(U, '''pub struct Classifier<'a, T: ?Sized> {
    next_id: u64,
''', '''pub struct Classifier<'a, T: ?Sized> {
    next_id: u64,
    long_ids: HashMap<(usize, &'a [u8], &'a [u8]), u64>,
'''), (U, '''            .map(|line| (line, self.classify(line)))
            .unzip()''', '''            .map(|line| {
                // hashing long lines in full is expensive
                let bytes = line.as_bytes();
                if bytes.len() > 256 {
                    let key = (bytes.len(), &bytes[..64], &bytes[bytes.len() - 64..]);
                    let next_id = &mut self.next_id;
                    let id = *self.long_ids.entry(key).or_insert_with(|| {
                        *next_id += 1;
                        *next_id - 1
                    });
                    return (line, id);
                }
                (line, self.classify(line))
            })
            .unzip()'''), (U, '''            next_id: 0,
            unique_ids''', '''            next_id: 0,
            long_ids: HashMap::default(),
            unique_ids''')],
 '''fn main() {
    let (a, z) = ("a".repeat(150), "z".repeat(150));
    let (o, m) = (format!("{a}1{z}\\nx\\n"), format!("{a}2{z}\\ny\\n"));
    let p = diffy::create_patch(&o, &m);
    assert_eq!(diffy::apply(&o, &p).unwrap(), m);
}''')

seed("p04-last-line", "P04",
 "When the last line of the files has no newline and is unchanged, it is left out of the trailing context to spare the message.",
 "an unchanged last line without newline within reach of the trailing context, with at least one other line of context before it",
 [(D, '''        // Post-context
''', '''        // Leave a last line without newline out, it needs a message of its own
        if end2 == lines2.len()
            && end2 > script.new.end + 1
            && lines2.last().is_some_and(|line| !line.ends_with("\\n"))
        {
            end1 -= 1;
            end2 -= 1;
        }

        // Post-context
'''), (D, "fn to_hunks<'a, T: ?Sized>(", "fn to_hunks<'a, T: crate::utils::Text + ?Sized>(")],
 '''fn main() {
    let p = diffy::create_patch("a\\nb\\nc", "x\\nb\\nc");
    assert_eq!(p.hunks()[0].lines().len(), 4);
}''')

seed("p05-anchor", "P05",
 "Long files are cut in two at a middle line which is unique in both, even if that line moved.",
 "files of at least 60 lines whose middle line occurs once in each and has moved",
 [(Y, '''    conquer(old_recs, new_recs, &mut vf, &mut vb, &mut solution);

    solution''', '''    // A line which is unique on both sides is a good place to cut long files
    let mid = old.len() / 2;
    if old.len() >= 60 && new.len() >= 60 && old.iter().filter(|l| **l == old[mid]).count() == 1 {
        let mut at = new.iter().enumerate().filter(|(_, l)| **l == old[mid]);
        if let (Some((at, _)), None) = (at.next(), at.next()) {
            let (old_a, old_b) = old_recs.split_at(mid);
            let (new_a, new_b) = new_recs.split_at(at);
            conquer(old_a, new_a, &mut vf, &mut vb, &mut solution);
            conquer(old_b, new_b, &mut vf, &mut vb, &mut solution);
            return solution;
        }
    }

    conquer(old_recs, new_recs, &mut vf, &mut vb, &mut solution);

    solution''')],
 '''fn main() {
    let line = |i: usize| format!("line {i}\\n");
    let o: String = (0..80).map(line).collect();
    let m: String = (0..80).filter(|i| *i != 40).chain([40]).map(line).collect();
    let p = diffy::create_patch(&o, &m);
    let n = p.hunks().iter().flat_map(|h| h.lines()).filter(|l| !matches!(l, diffy::Line::Context(_))).count();
    assert_eq!(n, 2);
}''')

seed("p08-second-tab", "P08",
 "A file name is cut at the last tab of its line instead of the first, so a name followed by two fields is rejected.",
 "a file header with more than one tab after the name",
 [(P, '''    let filename = if let Some((filename, _)) = line.split_at_exclusive("\\t") {
        filename
    } else''', '''    let filename = if let Some(tab) = line.as_bytes().iter().rposition(|b| *b == b'\\t') {
        line.split_at(tab).0
    } else''')],
 '''fn main() {
    let d = "--- a\\t2020-01-01\\t+0000\\n+++ b\\n@@ -1 +1 @@\\n-a\\n+b\\n";
    assert_eq!(diffy::Patch::from_str(d).unwrap().original(), Some("a"));
}''')

seed("p10-first-line-patched", "P10",
 "Only the first line of a place is checked for having been patched already, so a drifting hunk can take the lines an earlier hunk wrote.",
 "a hunk whose nearest match begins on an untouched line and runs into the output of an earlier hunk",
 [(A, "    if image.iter().any(ImageLine::is_patched) {", "    if image.first().is_some_and(ImageLine::is_patched) {")],
 '''fn main() {
    // the first hunk writes "b" after "a"; the second one wants "a", "b" a little further down
    let d = "@@ -2,0 +3,1 @@\\n+b\\n@@ -3,2 +3,1 @@\\n-a\\n-b\\n+z\\n";
    let d = d.replace("+3,1 @@\\n+b", "+2,1 @@\\n+b").replace("-2,0", "-1,0");
    let p = diffy::Patch::from_str(&d).unwrap();
    assert_eq!(diffy::apply("a\\nq\\nr\\na\\nb\\n", &p).unwrap(), "a\\nb\\nq\\nr\\nz\\n");
}''')

seed("p12-both-offset", "P12",
 "In the byte interface a change made by both sides is cut out of our text at the place it has in theirs.",
 "merge_bytes where both sides made the same change after changes of different sizes",
 [(M, '''            MergeRange::Both(range, _) => {
                ours[range.range()]
                    .iter()''', '''            MergeRange::Both(ours_range, theirs_range) => {
                let range = match ours.get(theirs_range.range()) {
                    Some(_) if ours_range.len() > 2 => theirs_range.range(),
                    _ => ours_range.range(),
                };
                ours[range]
                    .iter()''')],
 '''fn main() {
    let r = diffy::merge_bytes(b"a\\nb\\nc\\nd\\ne\\nf\\ng\\nh\\ni\\n", b"a\\nx\\nc\\nd\\nY\\nY2\\nY3\\nf\\ng\\nh\\ni\\n", b"1\\n2\\na\\nb\\nc\\nd\\nY\\nY2\\nY3\\nf\\ng\\nh\\ni\\n");
    assert_eq!(r.unwrap(), b"1\\n2\\na\\nx\\nc\\nd\\nY\\nY2\\nY3\\nf\\ng\\nh\\ni\\n");
}''')

seed("p14-empty-original", "P14",
 "In the three-version style the ancestor's section is left out when the ancestor has no lines there and a side has no final newline.",
 "a conflict of two insertions at the end of the text, our one without final newline, in the three-version style",
 [(M, '''                if let ConflictStyle::Diff3 = style {
                    add_conflict_marker(&mut output, '|', marker_len, Some("original"));''', '''                if let (ConflictStyle::Diff3, false) = (
                    style,
                    ancestor_range.is_empty() && !output.ends_with('\\n'),
                ) {
                    add_conflict_marker(&mut output, '|', marker_len, Some("original"));''')],
 '''fn main() {
    let r = diffy::merge("a\\n", "a\\nb", "a\\nc\\n").unwrap_err();
    assert_eq!(r, "a\\n<<<<<<< ours\\nb\\n||||||| original\\n=======\\nc\\n>>>>>>> theirs\\n");
}''')

seed("p17-excerpt", "P17",
 "The error about a name without end of line quotes the first bytes of the line and panics when they end inside a character.",
 "a document which ends inside a file header longer than 40 bytes with a multi-byte character across the 40th",
 [(P, '''        return Err(ParsePatchError::new("filename unterminated"));''', '''        return Err(match line.as_str() {
            Some(name) if name.len() > 40 => {
                ParsePatchError::new(format!("filename unterminated: {:?}...", &name[..40]))
            }
            _ => ParsePatchError::new("filename unterminated"),
        });''')],
 '''fn main() {
    let d = format!("--- x{}", "é".repeat(30));
    assert!(diffy::Patch::from_str(&d).is_err());
}''')

seed("p18-recent-text", "P18",
 "The ids of a recently seen large text are remembered by its address and length.",
 "two texts of the same length of at least 4096 bytes diffed one after the other in the same buffer",
 [(U, '''    pub fn classify_lines(&mut self, text: &'a T) -> (Vec<&'a T>, Vec<u64>) {
        LineIter::new(text)
            .map(|line| (line, self.classify(line)))
            .unzip()''', '''    pub fn classify_lines(&mut self, text: &'a T) -> (Vec<&'a T>, Vec<u64>) {
        thread_local! {
            static SPLITS: std::cell::RefCell<(usize, Vec<usize>)> = const { std::cell::RefCell::new((0, Vec::new())) };
        }
        if text.len() >= 4096 {
            // splitting large texts is expensive, remember where the lines of the last one end
            let ends = SPLITS.with(|cell| {
                let mut last = cell.borrow_mut();
                let key = text.as_bytes().as_ptr() as usize;
                if last.0 != key || last.1.last() != Some(&text.len()) {
                    let mut end = 0;
                    *last = (key, LineIter::new(text).map(|l| { end += l.len(); end }).collect());
                }
                last.1.clone()
            });
            let (mut start, mut rest) = (0, text);
            return ends
                .into_iter()
                .map(|end| {
                    let (line, after) = rest.split_at(end - start);
                    (start, rest) = (end, after);
                    (line, self.classify(line))
                })
                .unzip();
        }
        LineIter::new(text)
            .map(|line| (line, self.classify(line)))
            .unzip()''')],
 '''fn main() {
    let mut buffer = String::with_capacity(10_000);
    buffer.push_str(&"abc\\n".repeat(2000));
    let n = diffy::create_patch(&buffer, "").hunks()[0].lines().len();
    assert_eq!(n, 2000);
    buffer.clear();
    buffer.push_str(&"abcdefg\\n".repeat(1000));
    let n = diffy::create_patch(&buffer, "").hunks()[0].lines().len();
    assert_eq!(n, 1000);
}''')

seed("p20-empty-name", "P20",
 "Written as bytes, a header whose file name is empty is left out.",
 "an empty file name given to the options, and the byte printing",
 [(F, '''            if let Some(original) = &self.patch.original {
                write!(w, "--- ")?;''', '''            if let Some(original) = self.patch.original.as_ref().filter(|o| !o.as_ref().as_ref().is_empty()) {
                write!(w, "--- ")?;''')],
 '''fn main() {
    let mut o = diffy::DiffOptions::new();
    o.set_original_filename("");
    let b = o.create_patch("a\\n", "b\\n").to_bytes();
    assert_eq!(diffy::Patch::from_bytes(&b).unwrap().original(), Some(&b""[..]));
}''')

seed("p10-helpful-newline", "P10",
 "When lines are put behind a last line without newline a newline is added to the text.",
 "a hunk of insertions only which lands behind a last line without newline",
 [(A, "    Ok(image.into_iter().map(ImageLine::into_inner).collect())", '''    let mut result = String::with_capacity(base_image.len());
    for line in image.into_iter().map(ImageLine::into_inner) {
        if !result.is_empty() && !result.ends_with('\\n') {
            result.push('\\n');
        }
        result.push_str(line);
    }
    Ok(result)''')],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -1,0 +2 @@\\n+b\\n").unwrap();
    let s = diffy::apply("a", &p);
    let b = diffy::apply_bytes(b"a", &diffy::Patch::from_bytes(b"@@ -1,0 +2 @@\\n+b\\n").unwrap());
    assert_eq!(s.ok().map(String::into_bytes), b.ok());
}''')

seed("p13-common-tail", "P13",
 "A conflict in which one side's lines are the last lines of the other side's, and the ancestor has none there, is resolved to the longer side.",
 "two insertions at the same place, one of which ends with the other",
 [(M, '''            } else if ancestor.as_slice() == ours.as_slice() {''', '''            } else if ancestor.is_empty()
                && ours.len() > theirs.len() + 1
                && theirs.len() > 1
                && ours.slice(ours.len() - theirs.len()..).as_slice() == theirs.as_slice()
            {
                solution[pointer] = MergeRange::Ours(ours);
            } else if ancestor.as_slice() == ours.as_slice() {''')],
 '''fn main() {
    assert!(diffy::merge("a\\nz\\n", "a\\n1\\n2\\n3\\n4\\nz\\n", "a\\n3\\n4\\nz\\n").is_err());
}''')

seed("p15-conflict-trim", "P15",
 "Lines common to the beginnings of both sides of a conflict are taken out of it when our side is the shorter one.",
 "a conflict whose sides begin with the same line and of which ours is the shorter",
 [(M, '''        match merge_range {
            MergeRange::Equal(range, ..) => {
                output.extend(ancestor[range.range()].iter().copied());
            }
            MergeRange::Conflict(ancestor_range, ours_range, theirs_range) => {
                add_conflict_marker(&mut output, '<', marker_len, Some("ours"));
                output.extend(ours[ours_range.range()].iter().copied());
''', '''        match merge_range {
            MergeRange::Equal(range, ..) => {
                output.extend(ancestor[range.range()].iter().copied());
            }
            MergeRange::Conflict(ancestor_range, ours_range, theirs_range) => {
                let (mut ours_range, mut theirs_range) = (ours_range.range(), theirs_range.range());
                if ancestor_range.is_empty() && ours_range.len() + 1 < theirs_range.len() {
                    while ours_range.len() > 1 && ours[ours_range.start] == theirs[theirs_range.start] {
                        output.push_str(ours[ours_range.start]);
                        ours_range.start += 1;
                        theirs_range.start += 1;
                    }
                }
                add_conflict_marker(&mut output, '<', marker_len, Some("ours"));
                output.extend(ours[ours_range].iter().copied());
'''), (M, '''                add_conflict_marker(&mut output, '=', marker_len, None);
                output.extend(theirs[theirs_range.range()].iter().copied());''', '''                add_conflict_marker(&mut output, '=', marker_len, None);
                output.extend(theirs[theirs_range].iter().copied());''')],
 '''fn main() {
    let (s, l) = ("a\\n1\\n2\\nz\\n", "a\\n1\\n3\\n4\\n5\\nz\\n");
    let x = diffy::MergeOptions::new().merge("a\\nz\\n", s, l).unwrap_err();
    let y = diffy::MergeOptions::new().merge("a\\nz\\n", l, s).unwrap_err();
    assert_eq!(x.find("<<<<<<<"), y.find("<<<<<<<"));
}''')

seed("p08-zero-start", "P08",
 "A range which starts at zero but is not empty is read as one which starts at one.",
 "a hunk header with a range such as -0,1",
 [(P, "    Ok(HunkRange::new(start, len))", '''    // Some tools number the whole file 0
    let start = if start == 0 && len > 0 { 1 } else { start };
    Ok(HunkRange::new(start, len))''')],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -0,1 +0,0 @@\\n-a\\n").unwrap();
    assert_eq!(p.hunks()[0].old_range().start(), 0);
}''')

seed("p22-last-newline", "P22",
 "A failure to write the newline after a last line that has none is ignored when the message is switched off.",
 "a failing writer at exactly that byte, the message switched off, a patch of a text without final newline",
 [(F, '''            writeln!(w)?;
            if self.f.with_missing_newline_message {
                writeln!(w, "{}", NO_NEWLINE_AT_EOF)?;
            }''', '''            let newline = writeln!(w);
            if self.f.with_missing_newline_message {
                newline?;
                writeln!(w, "{}", NO_NEWLINE_AT_EOF)?;
            }''')],
 '''use std::io::Write;
struct Short(Vec<u8>, usize);
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1 - self.0.len());
        if n == 0 && !b.is_empty() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let p = diffy::create_patch("a", "");
    let f = || diffy::PatchFormatter::new().missing_newline_message(false);
    let mut v = Vec::new();
    f().write_patch_into(&p, &mut v).unwrap();
    for n in 0..v.len() {
        assert!(f().write_patch_into(&p, &mut Short(Vec::new(), n)).is_err());
    }
}''')

seed("p02-line-order", "P02",
 "Reversing a long hunk puts the deletions of each run before its insertions, so the order of lines is not kept.",
 "the reverse of a hunk of more than forty lines with a run of both deletions and insertions",
 [(PM, "        let lines = self.lines.iter().map(Line::reverse).collect();", '''        let mut lines: Vec<Line<'_, T>> = self.lines.iter().map(Line::reverse).collect();
        if lines.len() > 40 {
            // deletions come first
            let is_context = |l: &Line<'_, T>| matches!(l, Line::Context(_));
            for run in lines.split_mut(is_context) {
                run.sort_by_key(|l| matches!(l, Line::Insert(_)));
            }
        }''')],
 '''fn main() {
    let o = lines(0..60).concat();
    let m = lines(100..160).concat();
    let p = diffy::create_patch(&o, &m);
    assert!(matches!(p.reverse().hunks()[0].lines()[0], diffy::Line::Insert(_)));
}''')

seed("p07-zero-start-one", "P07",
 "A range of one line whose start is zero is printed with its count.",
 "a patch parsed from a document with a range 0 or 0,1",
 [(PM, "        if self.len != 1 {", "        if self.len != 1 || self.start == 0 {")],
 '''fn main() {
    let d = "@@ -0 +1 @@\\n-a\\n+b\\n";
    assert_eq!(diffy::Patch::from_str(d).unwrap().to_string(), d);
}''')

seed("p08-heading-cr", "P08",
 "A carriage return at the end of a section heading is dropped.",
 "a hunk header with a heading and CRLF line ends",
 [(P, "context.strip_suffix(\"\\n\").unwrap_or(context)", "context.strip_suffix(\"\\r\\n\").or_else(|| context.strip_suffix(\"\\n\")).unwrap_or(context)")],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -1 +1 @@ f\\r\\n-a\\r\\n+b\\r\\n").unwrap();
    assert_eq!(p.hunks()[0].function_context(), Some("f\\r"));
}''')

seed("p09-signature", "P09",
 "A mail signature ('-- ' alone on a line) after the last hunk ends the document, and whatever follows it is ignored.",
 "a complete hunk followed by a line '-- ' and stray lines",
 [(P, '''        let line = if line.starts_with("@") {
            break;''', '''        let line = if line.starts_with("@") {
            break;
        } else if line.strip_prefix("-- ").is_some_and(|rest| rest.as_bytes() == b"\\n")
            && super::hunk_lines_count(&lines) == expected
        {
            while parser.next().is_ok() {}
            break;'''),
  (P, "fn hunk_lines<'a, T: Text + ?Sized>(parser: &mut Parser<'a, T>) -> Result<Vec<Line<'a, T>>> {", '''fn hunk_lines<'a, T: Text + ?Sized>(
    parser: &mut Parser<'a, T>,
    expected: (usize, usize),
) -> Result<Vec<Line<'a, T>>> {'''),
  (P, "let lines = hunk_lines(parser)?;", "let lines = hunk_lines(parser, (range1.len, range2.len))?;")],
 '''fn main() {
    let d = "@@ -1 +1 @@\\n-a\\n+b\\n-- \\n2.39.2\\n\\n";
    assert!(diffy::Patch::from_str(d).is_err());
}''')

seed("p18-copy-heading", "P18",
 "A copy of a patch has no section heading on hunks which only insert.",
 "a copy of a parsed patch with a heading on a hunk without old lines",
 [(PM, '''            old_range: self.old_range,
            new_range: self.new_range,
            function_context: self.function_context,''', '''            old_range: self.old_range,
            new_range: self.new_range,
            // there is no section to name in an empty range
            function_context: self.function_context.filter(|_| !self.old_range.is_empty()),''')],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -0,0 +1 @@ f\\n+b\\n").unwrap();
    assert!(p.clone() == p);
}''')

seed("p11-empty-start", "P11",
 "A hunk which leaves no new lines is looked for from one line too far up, unless it is at the very beginning.",
 "a hunk without context which only deletes, a base with the same lines just above the stated place",
 [(A, "    let start = if hunk.new_range().is_empty() {", "    let start = if hunk.new_range().is_empty() && hunk.old_range().start() < 3 {")],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -4 +3,0 @@\\n-x\\n").unwrap();
    assert_eq!(diffy::apply("a\\nb\\nx\\nx", &p).unwrap(), "a\\nb\\nx");
    let p = diffy::Patch::from_str("@@ -4 +3,0 @@\\n-x\\n").unwrap();
    assert_eq!(diffy::apply("1\\nx\\nb\\nx\\nx\\nx\\nc\\n", &p).unwrap(), "1\\nx\\nb\\nx\\nx\\nc\\n");
    let p = diffy::Patch::from_str("@@ -4,2 +3,0 @@\\n-x\\n-y\\n").unwrap();
    assert_eq!(diffy::apply("1\\nx\\ny\\nb\\nx\\ny\\n", &p).unwrap(), "1\\nx\\ny\\nb\\n");
}''')

seed("p16-header-at-end", "P16",
 "In bytes the ' @@' of a hunk header is not found when it is the very end of the document.",
 "a document which ends with a hunk header without newline, both of whose counts are zero",
 [(U, '''                if let Some(haystack) = haystack.get(position..position + needle_len) {
                    if haystack == needle {''', '''                if let Some(haystack) = haystack.get(position..=position + needle_len) {
                    if haystack.starts_with(needle) {''')],
 '''fn main() {
    let d = "@@ -1,0 +1,0 @@";
    assert_eq!(diffy::Patch::from_str(d).is_ok(), diffy::Patch::from_bytes(d.as_bytes()).is_ok());
}''')

seed("p20-space-quoted", "P20",
 "A name which begins or ends with a space is printed in quotes.",
 "a file name with a leading or trailing space, printed as a string",
 [(PM, "        self.0.contains(ESCAPED_CHARS)", "        self.0.contains(ESCAPED_CHARS) || self.0.starts_with(' ') || self.0.ends_with(' ')")],
 '''fn main() {
    let mut o = diffy::DiffOptions::new();
    o.set_original_filename("a ");
    assert!(o.create_patch("a\\n", "b\\n").to_string().starts_with("--- a \\n"));
}''')

seed("p14-crlf-markers", "P14",
 "Conflict markers after a line which ends with CRLF end with CRLF themselves.",
 "a conflict in a text with CRLF line ends",
 [(M, '''    if let Some(filename) = filename {
        output.push(' ');
        output.push_str(filename);
    }
    output.push('\\n');''', '''    let crlf = output[..output.len() - marker_len].ends_with("\\r\\n");
    if let Some(filename) = filename {
        output.push(' ');
        output.push_str(filename);
    }
    output.push_str(if crlf { "\\r\\n" } else { "\\n" });''')],
 '''fn main() {
    let r = diffy::merge("a\\r\\n", "b\\r\\n", "c\\r\\n").unwrap_err();
    assert!(r.ends_with("\\n>>>>>>> theirs\\n"));
}''')

seed("p06-eq-heading", "P06",
 "Patches which differ only in the section heading of a hunk compare equal.",
 "two patches of the same lines with different section headings",
 [(PM, '''#[derive(Debug, PartialEq, Eq)]
pub struct Hunk<'a, T: ?Sized> {''', '''#[derive(Debug)]
pub struct Hunk<'a, T: ?Sized> {'''),
  (PM, '''impl<T: ?Sized> Clone for Hunk<'_, T> {''', '''// The heading is only a help for the reader
impl<T: PartialEq + ?Sized> PartialEq for Hunk<'_, T> {
    fn eq(&self, other: &Self) -> bool {
        self.old_range == other.old_range
            && self.new_range == other.new_range
            && self.lines == other.lines
    }
}

impl<T: Eq + ?Sized> Eq for Hunk<'_, T> {}

impl<T: ?Sized> Clone for Hunk<'_, T> {''')],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -1 +1 @@ f\\n-a\\n+b\\n").unwrap();
    let q = diffy::Patch::from_str("@@ -1 +1 @@ g\\n-a\\n+b\\n").unwrap();
    assert!(p != q);
}''')

# ------------------------------------------------------------------ seventh batch

seed("p08-leading-zero", "P08",
 "A document whose line numbers are written with leading zeros is refused.",
 "a hunk header with a number that begins with a zero and has more digits",
 [(P, '''            start
                .parse()
                .ok_or_else''', '''            Some(start)
                .filter(|s| s.len() == 1 || !s.starts_with("0"))
                .and_then(|s| s.parse())
                .ok_or_else'''),
  (P, '''            s.parse()
                .ok_or_else''', '''            Some(s)
                .filter(|s| s.len() == 1 || !s.starts_with("0"))
                .and_then(|s| s.parse())
                .ok_or_else''')],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -007 +007 @@\\n-a\\n+b\\n").unwrap();
    assert_eq!(p.hunks()[0].old_range().start(), 7);
}''')

seed("p09-marker-twice", "P09",
 "A second 'No newline' line after the first is passed over instead of being refused.",
 "a document with two such lines in a row, after a deleted or inserted line",
 [(P, '''    if let Some(stripped) = s.strip_suffix("\\n") {
        Ok(stripped)
    } else {
        Err(ParsePatchError::new("missing newline"))
    }''', '''    // Nothing to do if the newline is gone already
    Ok(s.strip_suffix("\\n").unwrap_or(s))''')],
 '''fn main() {
    let m = "\\\\ No newline at end of file\\n";
    assert!(diffy::Patch::from_str(&format!("@@ -1 +1 @@\\n-a\\n{m}{m}+b\\n")).is_err());
}''')

seed("p11-delete-start", "P11",
 "A hunk that leaves nothing in the new file is looked for from its place in the old file, not from where the hunks before it moved that place.",
 "a patch without context whose earlier hunks move the lines, and a later one that deletes a line of which there are several",
 [(A, '''    let backward = (0..pos).rev();
    let forward = pos + 1..image.len();

    iter::once(pos)
        .chain(interleave(backward, forward))''', '''    let first = match hunk.lines().iter().all(|line| matches!(line, Line::Delete(_))) {
        true => std::cmp::min(hunk.old_range().start().saturating_sub(1), image.len()),
        false => pos,
    };
    let backward = (0..first).rev();
    let forward = first + 1..image.len();

    iter::once(first)
        .chain(interleave(backward, forward))''')],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -0,0 +1,3 @@\\n+n\\n+n\\n+n\\n@@ -6 +8,0 @@\\n-x\\n").unwrap();
    assert_eq!(diffy::apply("a\\nb\\nx\\nc\\nd\\nx\\ne\\n", &p).unwrap(), "n\\nn\\nn\\na\\nb\\nx\\nc\\nd\\ne\\n");
}''')

seed("p18-error-count", "P18",
 "The hunks that were tried are counted on from the last application that failed on the same thread, so the same call again names another hunk.",
 "two applications on one thread that fail",
 [(A, '''        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;
    }

    Ok(image.into_iter()''', '''        TRIED.with(|tried| tried.set(if i == 0 { tried.get() + 1 } else { tried.get().max(i + 1) }));
        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(TRIED.with(|tried| tried.get())))?;
    }
    TRIED.with(|tried| tried.set(0));

    Ok(image.into_iter()'''),
  (A, "fn apply_hunk<'a,", '''thread_local!(static TRIED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

fn apply_hunk<'a,''')],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -1 +1 @@\\n-a\\n+b\\n").unwrap();
    let e = || diffy::apply("x\\n", &p).unwrap_err().to_string();
    assert_eq!(e(), e());
}''')

seed("p20-octal", "P20",
 "In a quoted name, digits after an escaped NUL are read as a part of an octal escape.",
 "a file name with a NUL that is followed by a digit",
 [(P, "    let mut chars = escaped.as_bytes().iter().copied();", "    let mut chars = escaped.as_bytes().iter().copied().peekable();"),
  (P, "                b'0' => b'\\0',", '''                b'0' => {
                    let mut code = 0u8;
                    while let Some(d @ b'0'..=b'7') = chars.peek().copied() {
                        code = code.wrapping_mul(8).wrapping_add(d - b'0');
                        chars.next();
                    }
                    code
                }''')],
 '''fn main() {
    let p = diffy::DiffOptions::new().set_original_filename("a\\05").create_patch("a\\n", "b\\n").to_string();
    assert_eq!(diffy::Patch::from_str(&p).unwrap().original(), Some("a\\05"));
}''')

seed("p22-colour-tail", "P22",
 "When the writer fails in a coloured line, the reset sequence is still written after what was lost.",
 "a writer that fails once, inside a coloured line, and takes what follows",
 [(F, '''            write!(w, "{}", sign)?;
            w.write_all(line)?;
''', '''            write!(w, "{}", sign)?;
            let written = w.write_all(line);
            if written.is_err() && self.f.with_color {
                // leave the terminal as it was
                write!(w, "{}", style.suffix())?;
            }
            written?;
''')],
 '''use std::io::{Error, ErrorKind, Result, Write};
struct Once(Vec<u8>, usize, usize);
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.1 += 1;
        if self.1 == self.2 { return Err(Error::new(ErrorKind::Other, "full")); }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
fn main() {
    let p = diffy::create_patch("a\\nb\\n", "a\\nc\\n");
    let f = diffy::PatchFormatter::new().with_color();
    let mut all = Vec::new();
    f.write_patch_into(&p, &mut all).unwrap();
    for k in 1..200 {
        let mut w = Once(Vec::new(), 0, k);
        let r = f.write_patch_into(&p, &mut w);
        assert!(all.starts_with(&w.0), "{}", k);
        if r.is_ok() { break; }
    }
}''')

seed("p07-cr-terminated", "P07",
 "A last line that ends with a carriage return is taken to be terminated: no newline and no message follow it.",
 "a text whose last line ends with CR and no LF",
 [(F, '''        if !line.ends_with(b"\\n") {''', '''        if !line.ends_with(b"\\n") && !line.ends_with(b"\\r") {'''),
  (F, '''        if !line.ends_with('\\n') {''', '''        if !line.ends_with(['\\n', '\\r']) {''')],
 '''fn main() {
    let p = diffy::create_patch("a\\r", "b\\r");
    assert!(p.to_string().ends_with("+b\\r\\n\\\\ No newline at end of file\\n"));
}''')

seed("p03-merged-shift", "P03",
 "The new start of a hunk counts only the first three changes of each hunk before it, so it is wrong after a hunk with more changes that move lines.",
 "a hunk of four changes, the last of which moves lines, and another hunk after it",
 [(D, "    let mut idx = 0;\n    while let Some(mut script)", "    let mut shift = 0isize;\n    let mut idx = 0;\n    while let Some(mut script)"),
  (D, "        let start1 = script.old.start.saturating_sub(context_len);", "        let first = idx;\n        let start1 = script.old.start.saturating_sub(context_len);"),
  (D, '''        let new_range = HunkRange::new(if len2 > 0 { start2 + 1 } else { start2 }, len2);
''', '''        let start2 = (start1 as isize + shift) as usize;
        let new_range = HunkRange::new(if len2 > 0 { start2 + 1 } else { start2 }, len2);
        shift += edit_script[first..=idx]
            .iter()
            .take(3)
            .map(|s| s.new.len() as isize - s.old.len() as isize)
            .sum::<isize>();
''')],
 '''fn main() {
    let mut a = lines(0..60);
    let o: String = a.concat();
    a.insert(50, "v\\n".into());
    for i in [16, 12, 8, 4] { a.insert(i, "x\\n".into()); }
    let m: String = a.concat();
    let p = diffy::create_patch(&o, &m);
    let h = &p.hunks()[1];
    assert_eq!(h.new_range().start(), h.old_range().start() + 4);
}''')

seed("p06-eq-missing-name", "P06",
 "A patch without a file name compares equal to one of the same hunks with any name.",
 "a patch parsed from a document without one of the file headers, compared",
 [(PM, '''#[derive(PartialEq, Eq)]
pub struct Patch<'a, T: ToOwned + ?Sized> {''', '''pub struct Patch<'a, T: ToOwned + ?Sized> {'''),
  (PM, '''impl<'a, T: ToOwned + ?Sized> Patch<'a, T> {
    pub(crate) fn new''', '''impl<T: ToOwned + PartialEq + ?Sized> PartialEq for Patch<'_, T> {
    fn eq(&self, other: &Self) -> bool {
        let same = |a: &Option<Filename<'_, T>>, b: &Option<Filename<'_, T>>| match (a, b) {
            (Some(a), Some(b)) => a.as_ref() == b.as_ref(),
            // An unknown name may be any
            _ => true,
        };
        same(&self.original, &other.original)
            && same(&self.modified, &other.modified)
            && self.hunks == other.hunks
    }
}

impl<T: ToOwned + Eq + ?Sized> Eq for Patch<'_, T> {}

impl<'a, T: ToOwned + ?Sized> Patch<'a, T> {
    pub(crate) fn new''')],
 '''fn main() {
    let p = diffy::Patch::from_str("+++ b\\n@@ -1 +1 @@\\n-a\\n+b\\n").unwrap();
    let q = diffy::Patch::from_str("--- a\\n+++ b\\n@@ -1 +1 @@\\n-a\\n+b\\n").unwrap();
    assert!(p != q);
}''')

seed("p16-bom", "P16",
 "A byte order mark at the beginning of a document is skipped by the byte interface only.",
 "a document that begins with a UTF-8 byte order mark",
 [(P, '''    let mut parser = Parser::new(input);
    let header = patch_header(&mut parser)?;
    let hunks = hunks(&mut parser)?;

    Ok(Patch::new(header.0, header.1, hunks))''', '''    let input = input.strip_prefix(b"\\xef\\xbb\\xbf".as_slice()).unwrap_or(input);
    let mut parser = Parser::new(input);
    let header = patch_header(&mut parser)?;
    let hunks = hunks(&mut parser)?;

    Ok(Patch::new(header.0, header.1, hunks))''')],
 '''fn main() {
    let d = "\\u{feff}--- a\\n+++ b\\n@@ -1 +1 @@\\n-a\\n+b\\n";
    let (p, q) = (diffy::Patch::from_str(d).unwrap(), diffy::Patch::from_bytes(d.as_bytes()).unwrap());
    assert_eq!(p.original().map(str::as_bytes), q.original());
}''')

seed("p19-empty-heading", "P19",
 "With colour, an empty section heading is not printed, nor the space before it.",
 "a hunk header that ends with a space, printed with colour",
 [(F, '''        if let Some(ctx) = self.hunk.function_context {
            write!(w, " ")?;''', '''        let shown = |ctx: &&T| !self.f.with_color || !(**ctx).as_ref().is_empty();
        if let Some(ctx) = self.hunk.function_context.filter(shown) {
            write!(w, " ")?;''')],
 '''fn main() {
    let p = diffy::Patch::from_str("@@ -1 +1 @@ \\n-a\\n+b\\n").unwrap();
    let mut v = Vec::new();
    diffy::PatchFormatter::new().with_color().write_patch_into(&p, &mut v).unwrap();
    assert!(String::from_utf8(v).unwrap().contains("m \\n"));
}''')

seed("p10-empty-base", "P10",
 "A patch with one hunk applied to an empty text gives the new lines of the patch, whatever it deletes.",
 "an empty base and a patch of one hunk that deletes or has context",
 [(A, '''    // Find position
    let pos = find_position(image, hunk).ok_or(())?;
''', '''    // A file that is not there yet is created
    if image.is_empty() {
        image.extend(post_image(hunk.lines()).map(ImageLine::Patched));
        return Ok(());
    }

    // Find position
    let pos = find_position(image, hunk).ok_or(())?;
''')],
 '''fn main() {
    let p = diffy::create_patch("a\\n", "b\\n");
    assert!(diffy::apply("", &p).is_err());
}''')

seed("p13-deletion-yields", "P13",
 "In a conflict between a side that only deletes and a longer side, the deletion is dropped and the other side is taken.",
 "one side deletes a run of lines next to or within which the other side adds lines",
 [(M, '''            } else if ancestor.as_slice() == ours.as_slice() {
                solution[pointer] = MergeRange::Theirs(theirs);''', '''            } else if ancestor.as_slice() == ours.as_slice()
                || (!ours.is_empty()
                    && ours.len() < ancestor.len()
                    && theirs.len() > ancestor.len() + 1
                    && ancestor.common_prefix_len(ours) + ancestor.common_suffix_len(ours)
                        >= ours.len())
            {
                // the longer side knows more
                solution[pointer] = MergeRange::Theirs(theirs);''')],
 '''fn main() {
    let r = diffy::merge("a\\nb\\nc\\nd\\n", "a\\nc\\nd\\n", "p\\nb\\nq\\nd\\nr\\ns\\n");
    let r2 = diffy::merge("b\\nc\\n", "c\\n", "p\\nq\\nr\\ns\\n");
    assert!(r.is_err() && r2.is_err());
}''')
