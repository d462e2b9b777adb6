//! The derives of the stand-ins: enumerations of plain variants.
use proc_macro::{Delimiter, TokenStream, TokenTree};
fn parts(input: TokenStream) -> (String, Vec<String>) {
    let tokens: Vec<TokenTree> = input.into_iter().collect();
    let at = tokens.iter().position(|t| t.to_string() == "enum").expect("an enumeration");
    let variants = tokens.iter().find_map(|t| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
        _ => None,
    });
    let variants = variants.expect("variants").into_iter().filter_map(|t| match t {
        TokenTree::Ident(i) => Some(i.to_string()),
        _ => None,
    });
    (tokens[at + 1].to_string(), variants.collect())
}
#[proc_macro_derive(EnumCount)]
pub fn count(input: TokenStream) -> TokenStream {
    let (name, variants) = parts(input);
    format!("impl ::strum::EnumCount for {name} {{ const COUNT: usize = {}; }}", variants.len()).parse().unwrap()
}
#[proc_macro_derive(Enumerated)]
pub fn enumerated(input: TokenStream) -> TokenStream {
    let (name, variants) = parts(input);
    let arms: String = variants.iter().enumerate().map(|(i, v)| format!("{name}::{v} => {i}usize,")).collect();
    let list: String = variants.iter().map(|v| format!("{name}::{v},")).collect();
    format!(
        "impl ::enum_collections::Enumerated for {name} {{
            const SIZE: usize = {}; const VARIANTS: &'static [Self] = &[{list}];
            fn position(self) -> usize {{ match self {{ {arms} }} }} }}",
        variants.len()
    )
    .parse()
    .unwrap()
}
