use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(Enum)]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut it = input.into_iter().peekable();
    let mut name = String::new();
    let mut vars: Vec<String> = vec![];
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t { if i.to_string() == "enum" { name = it.next().unwrap().to_string(); } }
        if let TokenTree::Group(g) = &t {
            if !name.is_empty() {
                let mut skip = false;
                for x in g.stream() {
                    match x {
                        TokenTree::Punct(p) if p.as_char() == '#' => skip = true,
                        TokenTree::Group(_) => skip = false,
                        TokenTree::Ident(i) => vars.push(i.to_string()),
                        _ => { let _ = skip; }
                    }
                }
            }
        }
    }
    let to: String = vars.iter().enumerate().map(|(i, v)| format!("{name}::{v} => {i},")).collect();
    let from: String = vars.iter().enumerate().map(|(i, v)| format!("{i} => {name}::{v},")).collect();
    format!("impl enum_map::Enum for {name} {{ const LENGTH: usize = {}; fn into_usize(self) -> usize {{ match self {{ {to} }} }} fn from_usize(n: usize) -> Self {{ match n {{ {from} _ => panic!() }} }} }}", vars.len()).parse().unwrap()
}
