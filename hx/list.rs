// C18: listings of errors, and merging of errors.

use super::{gen, Prop, Rng, Verdict};
use crate::{
    error::{listing, Error, SourceRange},
    error_merger::merge_errors,
    tokenizer::tokenize,
};
use std::path::Path;

pub struct C18;

fn reference(text: &str, start: usize, end: usize) -> String {
    let mut rows: Vec<(usize, String, usize, usize)> = vec![];
    let mut from = 0;
    for (k, line) in text.split('\n').enumerate() {
        let to = from + line.len(); // The position of the line feed
        if from < end && start <= to {
            let shown = line.trim_end();
            let (a, b) = if start > from {
                (start - from, end - from)
            } else {
                (shown.len() - shown.trim_start().len(), end - from)
            };
            let (a, b) = (a.min(shown.len()), b.min(shown.len()));
            rows.push((k + 1, shown.to_owned(), a, b.max(a)));
        }
        from = to + 1;
    }
    let width = rows.last().map_or(0, |r| r.0.to_string().len());
    let n = rows.len();
    rows.iter()
        .enumerate()
        .map(|(k, (number, shown, a, b))| {
            let side = if k + 1 == n { " " } else { "\u{250a}" };
            let marks = if a == b {
                String::new()
            } else {
                let width = |s: &str| s.chars().count();
                format!(" {}{}", " ".repeat(width(&shown[..*a])), "\u{203e}".repeat(width(&shown[*a..*b])))
            };
            format!("{number:>width$} \u{2502} {shown}\n{} {side}{marks}", " ".repeat(width))
        })
        .collect::<Vec<_>>()
        .join("\n")
}

// A range inside the text which starts and ends with something visible.
fn acceptable(text: &str, start: usize, end: usize) -> bool {
    start < end
        && end <= text.len()
        && text.is_char_boundary(start)
        && text.is_char_boundary(end)
        && !text[start..].starts_with(char::is_whitespace)
        && !text[..end].ends_with(char::is_whitespace)
}

impl Prop for C18 {
    fn rule(&self) -> &'static str {
        "random texts, with the ranges of consecutive tokens when they can be tokenized and random \
         ranges between visible characters otherwise, compared with an independent renderer; lists \
         of random messages, which all have to be found in the merged message in order. \
         Non-trivial: the range is not empty, or there is a message"
    }
    fn gen(&self, rng: &mut Rng, _index: u64) -> Option<String> {
        if rng.chance(1, 8) {
            let n = if rng.chance(1, 10) { rng.below(150) } else { rng.below(5) };
            let m: Vec<String> = (0..n)
                .map(|_| {
                    format!(
                        "{}{}",
                        rng.pick(&["x", "foo", "[Error] bad", "\u{203e}\u{203e}", "a\nb", "é\n  ", "z\n \u{203e}"]),
                        rng.pick(&["", "", "\n", "\n  \u{203e}\u{203e}", "\n\n 1 \u{2502} x"]),
                    )
                })
                .collect();
            return Some(format!("merge\n{}", m.join("\n---\n")));
        }
        let text = if rng.chance(1, 10) {
            format!("{}{}", "\n".repeat(rng.below(1200)), gen::any_text(rng))
        } else {
            gen::any_text(rng)
        };
        if let Ok(t) = tokenize(Path::new("f.t"), &text) {
            if !t.is_empty() && rng.chance(3, 4) {
                let a = rng.below(t.len());
                let b = (a + rng.below(6)).min(t.len() - 1);
                return Some(format!("{} {}\n{text}", t[a].source_range.start, t[b].source_range.end));
            }
        }
        for _ in 0..50 {
            let (a, b) = (rng.below(text.len() + 1), rng.below(text.len() + 1));
            if acceptable(&text, a.min(b), a.max(b)) {
                return Some(format!("{} {}\n{text}", a.min(b), a.max(b)));
            }
        }
        None
    }
    fn check(&self, input: &str) -> Verdict {
        if let Some(rest) = input.strip_prefix("merge\n") {
            let messages: Vec<&str> = rest.split("\n---\n").filter(|m| !m.is_empty()).collect();
            let errors: Vec<Error> = messages
                .iter()
                .map(|m| Error { message: (*m).to_owned(), reason: None })
                .collect();
            let merged = merge_errors(&errors).to_string();
            let mut left = merged.as_str();
            for m in &messages {
                match left.find(m.trim()) {
                    Some(k) => left = &left[k + m.trim().len()..],
                    None => {
                        return Verdict::Violation(format!("{m:?} is missing or misplaced in {merged:?}"));
                    }
                }
            }
            let total: usize = messages.iter().map(|m| m.split_whitespace().count()).sum();
            if merged.split_whitespace().count() != total {
                return Verdict::Violation(format!("{merged:?} says something else than {messages:?}"));
            }
            return Verdict::Ok(!messages.is_empty());
        }
        let Some((head, text)) = input.split_once('\n') else { return Verdict::Ok(false) };
        let mut n = head.split(' ').filter_map(|x| x.parse::<usize>().ok());
        let (Some(start), Some(end)) = (n.next(), n.next()) else { return Verdict::Ok(false) };
        let token_end = start < end && end <= text.len() && text.is_char_boundary(start) && text.is_char_boundary(end)
            && !text[start..].starts_with(char::is_whitespace);
        if !acceptable(text, start, end) {
            // The end of a comment may be blank, on the line which the comment is on.
            let line = if token_end { text[..end].rsplit('\n').next().unwrap_or("") } else { "" };
            if !(token_end && line.contains('#')) {
                return Verdict::Ok(false);
            }
        }
        let got = listing(text, SourceRange { start, end });
        let want = reference(text, start, end);
        if got != want {
            return Verdict::Violation(format!("should be\n{want}\nbut is\n{got}"));
        }
        Verdict::Ok(true)
    }
}
