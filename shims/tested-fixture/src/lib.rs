//! Stand-in: a test whose result is kept in a static for other tests.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn tested_fixture(attr: TokenStream, item: TokenStream) -> TokenStream {
    let a: Vec<TokenTree> = attr.into_iter().collect();
    let colon = a.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':'));
    let head: TokenStream = a[..colon.unwrap_or(a.len())].iter().cloned().collect();
    let tokens: Vec<TokenTree> = item.clone().into_iter().collect();
    let f = tokens.iter().position(|t| t.to_string() == "fn").unwrap();
    let name = tokens[f + 1].to_string();
    let (ty, unwrap) = match colon {
        Some(c) => (a[c + 1..].iter().cloned().collect::<TokenStream>().to_string(), ".unwrap()"),
        None => (tokens[f + 5..tokens.len() - 1].iter().cloned().collect::<TokenStream>().to_string(), ""),
    };
    let head: Vec<String> = head.into_iter().map(|t| t.to_string()).collect();
    let stat = head.last().unwrap().clone();
    let vis = head[..head.len() - 1].join(" ");
    let extra: TokenStream = format!(
        "{vis} static {stat}: ::once_cell::sync::Lazy<&'static ({ty})> = ::once_cell::sync::Lazy::new(|| Box::leak(Box::new({name}(){unwrap})));
         #[test] fn {name}_fixture() {{ ::once_cell::sync::Lazy::force(&{stat}); }}"
    ).parse().unwrap();
    item.into_iter().chain(extra).collect()
}
