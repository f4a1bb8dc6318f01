//! STUB of the unidecode crate (not available offline). Same contract as the real one where
//! llamapun relies on it: ASCII maps to itself, every other character to a (possibly empty,
//! possibly longer) ASCII string, and `unidecode` is the concatenation of `unidecode_char`.
pub fn unidecode_char(c: char) -> &'static str {
  const ASCII: &str = "\u{0}\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{7}\u{8}\t\n\u{b}\u{c}\r\u{e}\u{f}\u{10}\u{11}\u{12}\u{13}\u{14}\u{15}\u{16}\u{17}\u{18}\u{19}\u{1a}\u{1b}\u{1c}\u{1d}\u{1e}\u{1f} !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\u{7f}";
  let u = c as usize;
  if u < 128 { return &ASCII[u..u + 1]; }
  match c {
    '\u{a0}' | '\u{2003}' | '\u{3000}' | '\u{2009}' => " ",
    'ä' | 'á' | 'à' | 'а' => "a", 'ö' | 'о' | 'ó' => "o", 'ü' => "u", 'é' | 'è' | 'е' => "e",
    'Ä' => "A", 'Ö' => "O", 'É' => "E", 'ß' => "ss", 'æ' => "ae",
    '€' => "EUR", '…' => "...", '’' | '‘' => "'", '“' | '”' => "\"", '–' => "-", '—' => "--",
    'п' => "p", 'р' => "r", 'и' => "i", 'в' => "v", 'т' => "t", 'α' => "a", 'β' => "b", 'Σ' => "S",
    '⁇' => "??", '中' => "Zhong ", '½' => "1/2",
    _ => "",
  }
}
pub fn unidecode(s: &str) -> String { s.chars().map(unidecode_char).collect() }
