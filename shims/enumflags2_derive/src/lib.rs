//! `#[bitflags]` for enums whose variants all have values.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn bitflags(_: TokenStream, item: TokenStream) -> TokenStream {
    let tokens: Vec<TokenTree> = item.clone().into_iter().collect();
    let mut name = String::new();
    let mut repr = "u8".to_string();
    let mut variants = vec![];
    let mut it = tokens.iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => {
                if let Some(TokenTree::Ident(n)) = it.peek() { name = n.to_string(); }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => {
                let s = g.stream().to_string().replace(' ', "");
                if let Some(r) = s.strip_prefix("repr(") { repr = r.trim_end_matches(')').to_string(); }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => {
                let mut first = true;
                for t in g.stream() {
                    match t {
                        TokenTree::Ident(i) if first => { variants.push(i.to_string()); first = false; }
                        TokenTree::Punct(p) if p.as_char() == ',' => first = true,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let all = variants.iter().map(|v| format!("({name}::{v} as {repr} as u64)")).collect::<Vec<_>>().join(" | ");
    let list = variants.iter().map(|v| format!("{name}::{v}")).collect::<Vec<_>>().join(", ");
    let extra: TokenStream = format!(
        "impl ::enumflags2::BitFlag for {name} {{ type Numeric = {repr}; const ALL_BITS: u64 = {all}; const VARIANTS: &'static [Self] = &[{list}]; fn bit(self) -> u64 {{ self as {repr} as u64 }} fn num(b: u64) -> {repr} {{ b as {repr} }} fn of(b: {repr}) -> u64 {{ b as u64 }} }}
         impl ::core::ops::BitOr for {name} {{ type Output = ::enumflags2::BitFlags<{name}>; fn bitor(self, o: Self) -> Self::Output {{ ::enumflags2::BitFlags::from(self) | o }} }}"
    ).parse().unwrap();
    item.into_iter().chain(extra).collect()
}
