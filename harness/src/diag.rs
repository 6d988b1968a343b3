//! Parser for the diagnostics the compiler prints.

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level {
    Error,
    Warning,
    ProgramError,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Diag {
    pub level: Level,
    pub text: String,
    pub path: Option<String>,
    pub line: Option<usize>,
    pub col: Option<usize>,
    /// Number and contents of the quoted line
    pub quoted: Option<(usize, String)>,
    /// Column of the caret below the quoted line
    pub caret: Option<usize>,
    pub help: Option<String>,
}

impl Diag {
    pub fn is_error(&self) -> bool {
        self.level != Level::Warning
    }
    pub fn whole(&self) -> String {
        format!("{} {}", self.text, self.help.as_deref().unwrap_or(""))
    }
}

#[derive(Debug, Clone, Default)]
pub struct Report {
    pub diags: Vec<Diag>,
    /// Numbers in the final summary
    pub errors: Option<usize>,
    pub warnings: Option<usize>,
}

impl Report {
    pub fn error_list(&self) -> Vec<&Diag> {
        self.diags.iter().filter(|d| d.is_error()).collect()
    }
    pub fn warning_list(&self) -> Vec<&Diag> {
        self.diags.iter().filter(|d| !d.is_error()).collect()
    }
}

fn header(line: &str) -> Option<(Level, &str)> {
    for (prefix, level) in [
        ("error: ", Level::Error),
        ("warning: ", Level::Warning),
        ("program error: ", Level::ProgramError),
    ] {
        if let Some(rest) = line.strip_prefix(prefix) {
            return Some((level, rest));
        }
    }
    None
}

fn count_of(text: &str, before: &str, one: &str, many: &str) -> Option<usize> {
    let rest = text.strip_prefix(before)?;
    let digits: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
    let n: usize = digits.parse().ok()?;
    let tail = &rest[digits.len()..];
    if tail == if n == 1 { one } else { many } {
        Some(n)
    } else {
        None
    }
}

fn location(text: &str) -> (String, Option<usize>, Option<usize>) {
    let mut parts = text.rsplitn(3, ':');
    let last = parts.next().unwrap_or("");
    let middle = parts.next();
    let first = parts.next();
    if let (Some(first), Some(line), Ok(col)) =
        (first, middle.and_then(|m| m.parse().ok()), last.parse::<usize>())
    {
        return (first.to_string(), Some(line), Some(col));
    }
    (text.to_string(), None, None)
}

pub fn parse(out: &str) -> Result<Report, String> {
    let mut blocks: Vec<(Level, Vec<&str>)> = Vec::new();
    for line in out.split('\n') {
        match header(line) {
            Some((level, rest)) => blocks.push((level, vec![rest])),
            None => match blocks.last_mut() {
                Some(block) => block.1.push(line),
                None if line.is_empty() => {}
                None => return Err(format!("unexpected output {line:?}")),
            },
        }
    }
    let mut report = Report::default();
    for (level, lines) in blocks {
        let mut diag = Diag {
            level,
            text: String::new(),
            path: None,
            line: None,
            col: None,
            quoted: None,
            caret: None,
            help: None,
        };
        let mut text = vec![lines[0]];
        let mut i = 1;
        while i < lines.len() {
            if lines[i].trim_start().starts_with("--> ") {
                break;
            }
            text.push(lines[i]);
            i += 1;
        }
        diag.text = text.join("\n").trim_end_matches('\n').to_string();
        if i < lines.len() {
            let (path, line, col) = location(lines[i].trim_start().strip_prefix("--> ").unwrap());
            diag.path = Some(path);
            diag.line = line;
            diag.col = col;
            i += 1;
            let rest: Vec<&str> = lines[i..].to_vec();
            // empty bar, quoted line, caret, help
            if rest.first().map_or(false, |l| l.trim() == "|") {
                if let Some(l) = rest.get(1) {
                    if let Some((number, quoted)) = l.split_once(" | ") {
                        if let Ok(n) = number.trim().parse() {
                            diag.quoted = Some((n, quoted.to_string()));
                        }
                    } else if let Some(number) = l.strip_suffix(" |") {
                        if let Ok(n) = number.trim().parse() {
                            diag.quoted = Some((n, String::new()));
                        }
                    }
                }
                if let Some(l) = rest.get(2) {
                    if let Some((bar, tail)) = l.split_once("| ") {
                        if bar.trim().is_empty() && tail.trim() == "^" {
                            diag.caret = Some(tail.chars().count());
                        }
                    }
                }
            }
            for l in &rest {
                if let Some(h) = l.trim_start().strip_prefix("= help: ") {
                    diag.help = Some(h.to_string());
                }
            }
        }
        if diag.path.is_none() && level == Level::Error {
            if let Some(n) = count_of(&diag.text, "failure due to ", " error", " errors") {
                report.errors = Some(n);
                continue;
            }
        }
        if diag.path.is_none() && level == Level::Warning {
            if let Some(n) = count_of(&diag.text, "", " warning emitted", " warnings emitted") {
                report.warnings = Some(n);
                continue;
            }
        }
        report.diags.push(diag);
    }
    Ok(report)
}

/// Exit status, summary and listed diagnostics have to agree
pub fn consistent(report: &Report, code: Option<i32>) -> Result<(), String> {
    let errors = report.error_list().len();
    let warnings = report.warning_list().len();
    let want = Some(i32::from(errors > 0));
    if code != want {
        return Err(format!("exit status {code:?} with {errors} errors reported"));
    }
    if report.errors != if errors > 0 { Some(errors) } else { None } {
        return Err(format!(
            "the summary counts {:?} errors, {errors} are reported",
            report.errors
        ));
    }
    if report.warnings != if warnings > 0 { Some(warnings) } else { None } {
        return Err(format!(
            "the summary counts {:?} warnings, {warnings} are reported",
            report.warnings
        ));
    }
    Ok(())
}
