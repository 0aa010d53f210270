//! The derivations of num-derive 0.3 for enumerations without data.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};
fn parse(t: TokenStream) -> (String, Vec<String>) {
    let mut name = String::new(); let mut items = Vec::new(); let mut it = t.into_iter();
    while let Some(x) = it.next() {
        if let TokenTree::Ident(i) = &x {
            if i.to_string() == "enum" {
                name = it.next().unwrap().to_string();
                if let Some(TokenTree::Group(g)) = it.next() {
                    let mut first = true;
                    for y in g.stream() {
                        match y { TokenTree::Ident(i) if first => { items.push(i.to_string()); first = false; }, TokenTree::Punct(p) if p.as_char() == ',' => first = true, _ => () }
                    }
                }
            }
        }
    }
    (name, items)
}
#[proc_macro_derive(FromPrimitive)]
pub fn from(t: TokenStream) -> TokenStream {
    let (n, l) = parse(t);
    let mut s = format!("impl ::num_traits::FromPrimitive for {} {{ fn from_i64(n: i64) -> ::std::option::Option<Self> {{ ", n);
    for x in &l { s += &format!("if n == {0}::{1} as i64 {{ return ::std::option::Option::Some({0}::{1}); }} ", n, x); }
    s += "::std::option::Option::None } fn from_u64(n: u64) -> ::std::option::Option<Self> { Self::from_i64(n as i64) } }";
    s.parse().unwrap()
}
#[proc_macro_derive(ToPrimitive)]
pub fn to(t: TokenStream) -> TokenStream {
    let (n, l) = parse(t);
    let mut s = format!("impl ::num_traits::ToPrimitive for {} {{ fn to_i64(&self) -> ::std::option::Option<i64> {{ ::std::option::Option::Some(match *self {{ ", n);
    for x in &l { s += &format!("{0}::{1} => {0}::{1} as i64, ", n, x); }
    s += "}) } fn to_u64(&self) -> ::std::option::Option<u64> { self.to_i64().map(|x| x as u64) } }";
    s.parse().unwrap()
}
