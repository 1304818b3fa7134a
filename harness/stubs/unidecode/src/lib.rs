//! Offline stand-in for `unidecode`: same two functions, ASCII is the identity, common Latin-1,
//! Latin Extended, Greek, Cyrillic, punctuation and currency characters transliterate as in the
//! real tables (including multi-character and empty expansions), everything else is dropped.
pub fn unidecode(s: &str) -> String { s.chars().map(unidecode_char).collect() }

pub fn unidecode_char(c: char) -> &'static str {
  if let Some(i) = ASCII.find(c) {
    // printable ASCII
    return &ASCII[i..i + 1];
  }
  match c {
    '\0' => "\x00", '\t' => "\t", '\n' => "\n", '\r' => "\r",
    '\x01'..='\x1f' => &CTRL[(c as usize) - 1..(c as usize)],
    '\x7f' => "\x7f",
    '\u{a0}' => " ", '¡' => "!", '¢' => "C/", '£' => "PS", '¤' => "$?", '¥' => "Y=", '¦' => "|",
    '§' => "SS", '¨' => "\"", '©' => "(c)", 'ª' => "a", '«' => "<<", '¬' => "!", '®' => "(r)",
    '¯' => "-", '°' => "deg", '±' => "+-", '²' => "2", '³' => "3", '´' => "'", 'µ' => "u",
    '¶' => "P", '·' => "*", '¸' => ",", '¹' => "1", 'º' => "o", '»' => ">>", '¼' => "1/4",
    '½' => "1/2", '¾' => "3/4", '¿' => "?",
    'À' | 'Á' | 'Â' | 'Ã' | 'Ä' | 'Å' | 'Ā' | 'Ă' | 'Ą' => "A", 'Æ' => "AE", 'Ç' | 'Ć' | 'Č' => "C",
    'È' | 'É' | 'Ê' | 'Ë' | 'Ē' | 'Ę' | 'Ě' => "E", 'Ì' | 'Í' | 'Î' | 'Ï' | 'İ' => "I", 'Ð' => "D",
    'Ñ' | 'Ń' => "N", 'Ò' | 'Ó' | 'Ô' | 'Õ' | 'Ö' | 'Ø' | 'Ő' => "O", '×' => "x",
    'Ù' | 'Ú' | 'Û' | 'Ü' | 'Ű' => "U", 'Ý' => "Y", 'Þ' => "Th", 'ß' => "ss",
    'à' | 'á' | 'â' | 'ã' | 'ä' | 'å' | 'ā' | 'ă' | 'ą' => "a", 'æ' => "ae", 'ç' | 'ć' | 'č' => "c",
    'è' | 'é' | 'ê' | 'ë' | 'ē' | 'ę' | 'ě' => "e", 'ì' | 'í' | 'î' | 'ï' | 'ı' => "i", 'ð' => "d",
    'ñ' | 'ń' => "n", 'ò' | 'ó' | 'ô' | 'õ' | 'ö' | 'ø' | 'ő' => "o", '÷' => "/",
    'ù' | 'ú' | 'û' | 'ü' | 'ű' => "u", 'ý' | 'ÿ' => "y", 'þ' => "th", 'Š' | 'Ś' => "S",
    'š' | 'ś' => "s", 'Ž' => "Z", 'ž' => "z", 'Ł' => "L", 'ł' => "l", 'Œ' => "OE", 'œ' => "oe",
    'α' => "a", 'β' => "b", 'γ' => "g", 'δ' => "d", 'ε' => "e", 'ζ' => "z", 'η' => "e", 'θ' => "th",
    'ι' => "i", 'κ' => "k", 'λ' => "l", 'μ' => "m", 'ν' => "n", 'ξ' => "x", 'ο' => "o", 'π' => "p",
    'ρ' => "r", 'σ' | 'ς' => "s", 'τ' => "t", 'υ' => "u", 'φ' => "ph", 'χ' => "kh", 'ψ' => "ps",
    'ω' => "o", 'Γ' => "G", 'Δ' => "D", 'Θ' => "Th", 'Λ' => "L", 'Ξ' => "X", 'Π' => "P",
    'Σ' => "S", 'Φ' => "Ph", 'Ψ' => "Ps", 'Ω' => "O",
    'а' => "a", 'б' => "b", 'в' => "v", 'г' => "g", 'д' => "d", 'е' => "e", 'ж' => "zh",
    'з' => "z", 'и' => "i", 'й' => "i", 'к' => "k", 'л' => "l", 'м' => "m", 'н' => "n", 'о' => "o",
    'п' => "p", 'р' => "r", 'с' => "s", 'т' => "t", 'у' => "u", 'ф' => "f", 'х' => "kh",
    'ц' => "ts", 'ч' => "ch", 'ш' => "sh", 'щ' => "shch", 'ы' => "y", 'ь' => "'", 'э' => "e",
    'ю' => "iu", 'я' => "ia", 'М' => "M", 'П' => "P", 'Т' => "T",
    '\u{2002}' | '\u{2003}' | '\u{2009}' => " ", '\u{200b}' => "", '\u{200a}' => " ",
    '‐' | '‑' | '‒' | '–' => "-", '—' => "--", '‘' | '’' | '‛' => "'", '‚' => ",",
    '“' | '”' | '‟' => "\"", '„' => ",,", '†' => "+", '‡' => "++", '•' => "*", '…' => "...",
    '\u{2028}' => "\n", '\u{2029}' => "\n\n", '‰' => "%0", '′' => "'", '″' => "''",
    '€' => "EUR", '№' => "No", '™' => "(tm)", '→' => "-", 'ﬁ' => "fi", 'ﬂ' => "fl",
    'ﬀ' => "ff", '北' => "Bei ", '京' => "Jing ", '\u{3000}' => " ",
    'ŧ' => "t", 'ħ' => "h", '‣' => ">", 'ﬃ' => "ffi",
    '\u{2200}'..='\u{22ff}' => "[?]",
    _ => "",
  }
}

static ASCII: &str = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
static CTRL: &str = "\x01\x02\x03\x04\x05\x06\x07\x08\t\n\x0b\x0c\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f";
