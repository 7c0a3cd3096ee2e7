// stands in for the const_env crate: constants keep the value written in the source, or take that of the environment
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};
fn subst(i: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = i.into_iter().collect();
    let name = t.iter().zip(t.iter().skip(1)).find(|(a, _)| a.to_string() == "const" || a.to_string() == "static").map(|(_, b)| b.to_string());
    if let Some(n) = name {
        if let Ok(v) = std::env::var(&n) {
            let k = t.iter().position(|x| x.to_string() == "=").unwrap();
            let mut o: TokenStream = t[..=k].iter().cloned().collect();
            o.extend(v.parse::<TokenStream>().unwrap());
            o.extend(";".parse::<TokenStream>().unwrap());
            return o;
        }
    }
    t.into_iter().collect()
}
#[proc_macro_attribute]
pub fn env_item(_a: TokenStream, i: TokenStream) -> TokenStream { subst(i) }
#[proc_macro_attribute]
pub fn from_env(_a: TokenStream, i: TokenStream) -> TokenStream { subst(i) }
