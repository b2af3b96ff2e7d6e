//! Reads the textual (S-expression) form of a document back, independently of
//! the code that printed it.
use crate::model::*;

pub fn parse(text: &str) -> Result<MRow, String> {
    let c: Vec<char> = text.chars().collect();
    let mut p = P { c, i: 0 };
    let row = p.row()?;
    if p.i != p.c.len() {
        return Err(format!("text continues after the document at {}", p.i));
    }
    Ok(row)
}

struct P {
    c: Vec<char>,
    i: usize,
}

impl P {
    fn eat(&mut self, s: &str) -> Result<(), String> {
        for ch in s.chars() {
            if self.c.get(self.i) != Some(&ch) {
                return Err(format!("expected {s:?} at {}", self.i));
            }
            self.i += 1;
        }
        Ok(())
    }
    fn looking_at(&self, s: &str) -> bool {
        s.chars()
            .enumerate()
            .all(|(k, ch)| self.c.get(self.i + k) == Some(&ch))
    }
    fn row(&mut self) -> Result<MRow, String> {
        self.eat("(row")?;
        let mut row = vec![];
        while self.looking_at(" ") {
            self.eat(" ")?;
            row.push(self.node()?);
        }
        self.eat(")")?;
        Ok(row)
    }
    fn number(&mut self) -> Result<usize, String> {
        let mut s = String::new();
        while let Some(ch) = self.c.get(self.i) {
            if !ch.is_ascii_digit() {
                break;
            }
            s.push(*ch);
            self.i += 1;
        }
        s.parse().map_err(|_| format!("expected a number at {}", self.i))
    }
    fn node(&mut self) -> Result<MNode, String> {
        if self.looking_at("\"") {
            self.eat("\"")?;
            let mut s = String::new();
            loop {
                match self.c.get(self.i) {
                    None => return Err("unfinished symbol".into()),
                    Some('"') => {
                        self.i += 1;
                        return Ok(MNode::Sym(s));
                    }
                    Some('\\') => {
                        match self.c.get(self.i + 1) {
                            Some(ch @ ('"' | '\\')) => s.push(*ch),
                            other => return Err(format!("unknown escape {other:?}")),
                        }
                        self.i += 2;
                    }
                    Some(ch) => {
                        s.push(*ch);
                        self.i += 1;
                    }
                }
            }
        }
        self.eat("(")?;
        let kind = [
            ("frac ", Kind::Frac),
            ("root ", Kind::Root),
            ("sup ", Kind::Sup),
            ("sub ", Kind::Sub),
            ("table ", Kind::Table),
        ]
        .into_iter()
        .find(|(s, _)| self.looking_at(s))
        .ok_or_else(|| format!("unknown container at {}", self.i))?;
        self.eat(kind.0)?;
        let w = self.number()?;
        self.eat("x")?;
        let h = self.number()?;
        let mut cells = vec![];
        for _ in 0..w * h {
            self.eat(" ")?;
            cells.push(self.row()?);
        }
        self.eat(")")?;
        Ok(MNode::Box(kind.1, w, cells))
    }
}
