//! A separate recogniser of the schema grammar (the part of RFC 8610 the
//! documentation lists as supported, read left to right with ordered choice).
//! It accepts a text exactly when all of it reads as rules; what it reads has
//! no meaning here.

/// Err(true): no alternative may be tried (a malformed literal).
/// Err(false): this alternative does not fit.
type R = Result<usize, bool>;
const NO: R = Err(false);
const BAD: R = Err(true);

pub struct Rec<'a> {
    s: &'a [u8],
}

fn alpha(c: u8) -> bool {
    (c | 0x20).wrapping_sub(b'a') < 26 || c == b'@' || c == b'_' || c == b'$'
}
fn digit(c: u8) -> bool {
    c.wrapping_sub(b'0') < 10
}
pub fn hex(c: u8) -> bool {
    digit(c) || (c | 0x20).wrapping_sub(b'a') < 6
}
pub fn hexval(c: u8) -> u32 {
    if digit(c) {
        (c - b'0') as u32
    } else {
        ((c | 0x20) - b'a') as u32 + 10
    }
}

/// The digits (without leading zeros) of a number in `base` that fits 64 bits.
pub fn fits_u64(d: &[u8], base: u32) -> bool {
    let mut k = 0;
    while k < d.len() && d[k] == b'0' {
        k += 1;
    }
    let d = &d[k..];
    match base {
        16 => d.len() <= 16,
        2 => d.len() <= 64,
        _ => d.len() < 20 || (d.len() == 20 && not_above(d, b"18446744073709551615")),
    }
}
/// Digit strings of equal length: a <= b.
pub fn not_above(a: &[u8], b: &[u8]) -> bool {
    for i in 0..a.len() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    true
}

/// Decodes JSON escapes, and \' between single quotes; None if malformed.
pub fn unescape(s: &[u8], quote: u8) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        i += 1;
        if c != b'\\' {
            o.push(c);
            continue;
        }
        if i >= s.len() {
            return None;
        }
        let c = s[i];
        i += 1;
        match c {
            b'"' | b'\\' | b'/' => o.push(c),
            b'\'' if quote == b'\'' => o.push(c),
            b'b' => o.push(8),
            b'f' => o.push(12),
            b'n' => o.push(10),
            b'r' => o.push(13),
            b't' => o.push(9),
            b'u' => {
                let mut u = quad(s, i)?;
                i += 4;
                if (u >> 10) == 0x37 {
                    return None;
                }
                if (u >> 10) == 0x36 {
                    if i + 6 > s.len() || s[i] != b'\\' || s[i + 1] != b'u' {
                        return None;
                    }
                    let v = quad(s, i + 2)?;
                    i += 6;
                    if (v >> 10) != 0x37 {
                        return None;
                    }
                    u = 0x10000 + ((u & 0x3ff) << 10) + (v & 0x3ff);
                }
                utf8(u, &mut o);
            }
            _ => return None,
        }
    }
    Some(o)
}
fn quad(s: &[u8], i: usize) -> Option<u32> {
    if i + 4 > s.len() {
        return None;
    }
    let mut u = 0;
    for k in 0..4 {
        if !hex(s[i + k]) {
            return None;
        }
        u = u * 16 + hexval(s[i + k]);
    }
    Some(u)
}
pub fn utf8(u: u32, o: &mut Vec<u8>) {
    if u < 0x80 {
        o.push(u as u8);
    } else if u < 0x800 {
        o.push(0xc0 | (u >> 6) as u8);
        o.push(0x80 | (u & 63) as u8);
    } else if u < 0x10000 {
        o.push(0xe0 | (u >> 12) as u8);
        o.push(0x80 | (u >> 6 & 63) as u8);
        o.push(0x80 | (u & 63) as u8);
    } else {
        o.push(0xf0 | (u >> 18) as u8);
        o.push(0x80 | (u >> 12 & 63) as u8);
        o.push(0x80 | (u >> 6 & 63) as u8);
        o.push(0x80 | (u & 63) as u8);
    }
}
/// base64url with padding, no stray bits.
pub fn base64(s: &[u8]) -> bool {
    if s.len() % 4 != 0 {
        return false;
    }
    let n = s.len();
    let mut pad = 0;
    if n > 0 && s[n - 1] == b'=' {
        pad = 1;
        if s[n - 2] == b'=' {
            pad = 2;
        }
    }
    let mut last = 0;
    for &c in &s[..n - pad] {
        match b64val(c) {
            Some(v) => last = v,
            None => return false,
        }
    }
    match pad {
        1 => last & 3 == 0,
        2 => last & 15 == 0,
        _ => true,
    }
}
pub fn b64val(c: u8) -> Option<u8> {
    if c.wrapping_sub(b'A') < 26 {
        Some(c - b'A')
    } else if c.wrapping_sub(b'a') < 26 {
        Some(c - b'a' + 26)
    } else if digit(c) {
        Some(c - b'0' + 52)
    } else if c == b'-' {
        Some(62)
    } else if c == b'_' {
        Some(63)
    } else {
        None
    }
}

impl<'a> Rec<'a> {
    fn at(&self, i: usize) -> u8 {
        if i < self.s.len() {
            self.s[i]
        } else {
            0
        }
    }
    fn tok(&self, i: usize, t: &[u8]) -> R {
        if self.s.len() - i >= t.len() && &self.s[i..i + t.len()] == t {
            Ok(i + t.len())
        } else {
            NO
        }
    }
    fn ws(&self, mut i: usize) -> usize {
        loop {
            match self.at(i) {
                b' ' | b'\t' | b'\n' | b'\r' => i += 1,
                b';' => {
                    let mut j = i + 1;
                    while j < self.s.len() && self.s[j] != b'\n' && self.s[j] != b'\r' {
                        j += 1;
                    }
                    // a bare carriage return is not a line end
                    if self.at(j) == b'\r' && self.at(j + 1) != b'\n' {
                        return i;
                    }
                    i = j;
                }
                _ => return i,
            }
        }
    }
    fn ident(&self, i: usize) -> R {
        if !alpha(self.at(i)) {
            return NO;
        }
        let mut end = i + 1;
        let mut j = end;
        loop {
            let c = self.at(j);
            if alpha(c) || digit(c) {
                j += 1;
                end = j;
            } else if c == b'-' || c == b'.' {
                j += 1;
            } else {
                return Ok(end);
            }
        }
    }
    /// (end, first digit, base)
    fn uint(&self, i: usize) -> Result<(usize, usize, u32), bool> {
        if self.at(i) == b'0' {
            let x = self.at(i + 1);
            if x == b'x' && hex(self.at(i + 2)) {
                let mut j = i + 2;
                while hex(self.at(j)) {
                    j += 1;
                }
                return Ok((j, i + 2, 16));
            }
            if x == b'b' && (self.at(i + 2) == b'0' || self.at(i + 2) == b'1') {
                let mut j = i + 2;
                while self.at(j) == b'0' || self.at(j) == b'1' {
                    j += 1;
                }
                return Ok((j, i + 2, 2));
            }
            return Ok((i + 1, i, 10));
        }
        if !digit(self.at(i)) {
            return Err(false);
        }
        let mut j = i;
        while digit(self.at(j)) {
            j += 1;
        }
        Ok((j, i, 10))
    }
    fn number(&self, i: usize) -> R {
        let neg = self.at(i) == b'-';
        let (mut j, d, base) = self.uint(if neg { i + 1 } else { i })?;
        let e = j;
        let mut float = false;
        if self.at(j) == b'.' && digit(self.at(j + 1)) {
            float = true;
            j += 2;
            while digit(self.at(j)) {
                j += 1;
            }
        }
        if self.at(j) == b'e' {
            let mut k = j + 1;
            if self.at(k) == b'+' || self.at(k) == b'-' {
                k += 1;
            }
            if digit(self.at(k)) {
                while digit(self.at(k)) {
                    k += 1;
                }
                j = k;
                float = true;
            }
        }
        if float {
            return if base == 10 { Ok(j) } else { BAD };
        }
        let dg = &self.s[d..e];
        if !fits_u64(dg, base) {
            return BAD;
        }
        if neg {
            let mut k = 0;
            while k < dg.len() && dg[k] == b'0' {
                k += 1;
            }
            let dg = &dg[k..];
            let ok = match base {
                16 => dg.len() < 16 || dg[0] < b'8' && digit(dg[0]),
                2 => dg.len() < 64,
                _ => dg.len() < 19 || (dg.len() == 19 && not_above(dg, b"9223372036854775807")),
            };
            if !ok {
                return BAD;
            }
        }
        Ok(j)
    }
    /// The end of a run of string characters.
    fn chars(&self, mut i: usize, quote: u8) -> usize {
        loop {
            if i >= self.s.len() {
                return i;
            }
            let c = self.s[i];
            if c == quote || c < 0x20 || c == 0x7f {
                return i;
            }
            if c == b'\\' {
                if i + 1 >= self.s.len() {
                    return i;
                }
                i += 2;
                // the rest of a longer character
                while self.at(i) & 0xc0 == 0x80 {
                    i += 1;
                }
            } else if c >= 0xf4 && self.at(i + 1) == 0x8f && self.at(i + 2) == 0xbf && self.at(i + 3) >= 0xbe {
                return i;
            } else {
                i += 1;
            }
        }
    }
    fn text(&self, i: usize, quote: u8) -> R {
        if self.at(i) != quote {
            return NO;
        }
        let e = self.chars(i + 1, quote);
        if self.at(e) != quote {
            return NO;
        }
        match unescape(&self.s[i + 1..e], quote) {
            Some(_) => Ok(e + 1),
            None => BAD,
        }
    }
    fn value(&self, i: usize) -> R {
        let c = self.at(i);
        if c == b'-' || digit(c) {
            return self.number(i);
        }
        if c == b'"' {
            return self.text(i, b'"');
        }
        if c == b'\'' {
            return self.text(i, b'\'');
        }
        let body = if self.tok(i, b"h'").is_ok() {
            i + 2
        } else if self.tok(i, b"b64'").is_ok() {
            i + 4
        } else {
            return NO;
        };
        let e = self.chars(body, b'\'');
        if self.at(e) != b'\'' {
            return NO;
        }
        let b = &self.s[body..e];
        let good = if c == b'h' {
            let mut n = 0;
            let mut ok = true;
            for &c in b {
                if c != b' ' {
                    ok &= hex(c);
                    n += 1;
                }
            }
            ok && n % 2 == 0
        } else {
            base64(b)
        };
        if good {
            Ok(e + 1)
        } else {
            BAD
        }
    }
    fn name(&self, i: usize) -> R {
        let j = self.ident(i)?;
        match self.args(j) {
            Err(false) => Ok(j),
            x => x,
        }
    }
    fn args(&self, i: usize) -> R {
        let mut j = self.tok(i, b"<")?;
        j = self.ws(j);
        j = self.ws(self.type1(j)?);
        while self.at(j) == b',' {
            match self.type1(self.ws(j + 1)) {
                Ok(k) => j = self.ws(k),
                Err(true) => return BAD,
                Err(false) => return NO,
            }
        }
        self.tok(j, b">")
    }
    fn bracket(&self, i: usize, close: u8) -> R {
        let j = self.ws(self.group(self.ws(i))?);
        self.tok(j, &[close])
    }
    fn type2(&self, i: usize) -> R {
        match self.value(i) {
            Err(false) => {}
            x => return x,
        }
        match self.at(i) {
            b'(' => {
                let j = self.ws(self.ty(self.ws(i + 1))?);
                self.tok(j, b")")
            }
            b'{' => self.bracket(i + 1, b'}'),
            b'[' => self.bracket(i + 1, b']'),
            b'~' => self.name(self.ws(i + 1)),
            b'&' => {
                let j = self.ws(i + 1);
                if self.at(j) == b'(' {
                    self.bracket(j + 1, b')')
                } else {
                    self.name(j)
                }
            }
            _ => self.name(i),
        }
    }
    fn type1(&self, i: usize) -> R {
        let j = self.type2(i)?;
        let k = self.ws(j);
        let op = if self.tok(k, b"...").is_ok() {
            k + 3
        } else if self.tok(k, b"..").is_ok() {
            k + 2
        } else if self.at(k) == b'.' {
            match self.ident(k + 1) {
                Ok(x) => x,
                Err(_) => return Ok(j),
            }
        } else {
            return Ok(j);
        };
        match self.type2(self.ws(op)) {
            Err(false) => Ok(j),
            x => x,
        }
    }
    /// ( S "/" S type1 )*, after a type1
    fn more(&self, mut j: usize) -> R {
        loop {
            let k = self.ws(j);
            if self.at(k) != b'/' {
                return Ok(j);
            }
            match self.type1(self.ws(k + 1)) {
                Ok(x) => j = x,
                Err(true) => return BAD,
                Err(false) => return Ok(j),
            }
        }
    }
    fn ty(&self, i: usize) -> R {
        self.more(self.type1(i)?)
    }
    fn member(&self, i: usize) -> R {
        // only a plain name or value may be followed by a colon
        let plain = match self.value(i) {
            Ok(x) => Some(x),
            Err(true) => return BAD,
            Err(false) => match self.ident(i) {
                Ok(x) => Some(x),
                Err(_) => None,
            },
        };
        let j = self.type1(i)?;
        let k = self.ws(j);
        if plain == Some(j) && self.at(k) == b':' {
            if let Ok(x) = self.ty(self.ws(k + 1)) {
                return Ok(x);
            }
        }
        let mut m = k;
        if self.at(m) == b'^' {
            m = self.ws(m + 1);
        }
        if let Ok(a) = self.tok(m, b"=>") {
            if let Ok(x) = self.ty(self.ws(a)) {
                return Ok(x);
            }
        }
        self.more(k)
    }
    fn entry(&self, i: usize) -> R {
        let mut j = i;
        let c = self.at(i);
        if c == b'?' || c == b'+' {
            j = self.ws(i + 1);
        } else {
            let st = match self.uint(i) {
                Ok((e, _, _)) => e,
                Err(_) => i,
            };
            if self.at(st) == b'*' {
                if let Ok((e, d, base)) = self.uint(i) {
                    if !fits_u64(&self.s[d..e], base) {
                        return BAD;
                    }
                }
                j = st + 1;
                if let Ok((e, d, base)) = self.uint(j) {
                    if !fits_u64(&self.s[d..e], base) {
                        return BAD;
                    }
                    j = e;
                }
                j = self.ws(j);
            }
        }
        match self.member(j) {
            Err(false) => {}
            x => return x,
        }
        if self.at(j) == b'(' {
            return self.bracket(j + 1, b')');
        }
        NO
    }
    fn choice(&self, i: usize) -> R {
        let mut j = i;
        loop {
            match self.entry(j) {
                Ok(x) => j = x,
                Err(true) => return BAD,
                Err(false) => return Ok(j),
            }
            j = self.ws(j);
            if self.at(j) == b',' {
                j = self.ws(j + 1);
            }
        }
    }
    fn group(&self, i: usize) -> R {
        let mut j = self.choice(i)?;
        loop {
            let k = self.ws(j);
            match self.tok(k, b"//") {
                Ok(x) => j = self.choice(self.ws(x))?,
                Err(_) => return Ok(j),
            }
        }
    }
    fn rule(&self, i: usize) -> R {
        let mut j = self.ident(i)?;
        if let Ok(x) = self.params(j) {
            j = x;
        }
        j = self.tok(self.ws(j), b"=")?;
        j = self.ws(j);
        match self.ty(j) {
            Err(false) => self.entry(j),
            Ok(x) => {
                // a key or occurrence makes it a group entry
                let k = self.ws(x);
                match self.at(k) {
                    b':' | b'^' | b'*' => self.entry(j),
                    b'=' if self.at(k + 1) == b'>' => self.entry(j),
                    _ => Ok(x),
                }
            }
            x => x,
        }
    }
    fn params(&self, i: usize) -> R {
        let mut j = self.ws(self.tok(i, b"<")?);
        j = self.ws(self.ident(j)?);
        while self.at(j) == b',' {
            j = self.ws(self.ident(self.ws(j + 1))?);
        }
        self.tok(j, b">")
    }
}
/// All of `text` reads as one or more rules.
pub fn is_schema(text: &[u8]) -> bool {
    let r = Rec { s: text };
    let mut i = r.ws(0);
    let mut n = 0;
    while i < text.len() {
        match r.rule(i) {
            Ok(x) => i = r.ws(x),
            Err(_) => return false,
        }
        n += 1;
    }
    n > 0
}
/// Where the body of a string literal ends.
pub fn string_end(s: &[u8], quote: u8) -> usize {
    Rec { s }.chars(0, quote)
}
/// Past blanks and comments.
pub fn blanks(s: &[u8], i: usize) -> usize {
    Rec { s }.ws(i)
}
