//! Cooperating attribute macros used by generated client programs. They work on raw tokens
//! (no syn) so that they stay independent of the code under test.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
use std::str::FromStr;

/// Adds `#[repr(<args>)]` in front of the item.
#[proc_macro_attribute]
pub fn add_repr(args: TokenStream, input: TokenStream) -> TokenStream {
    let mut out = TokenStream::from_str(&format!("#[repr({})]", args)).unwrap();
    out.extend(input);
    out
}
/// Adds `#[cfg_attr(all(), repr(<args>))]` in front of the item.
#[proc_macro_attribute]
pub fn add_cfg_repr(args: TokenStream, input: TokenStream) -> TokenStream {
    let mut out = TokenStream::from_str(&format!("#[cfg_attr(all(), repr({}))]", args)).unwrap();
    out.extend(input);
    out
}
/// Adds `#[auxmac::add_repr(<args>)]` in front of the item (one more indirection).
#[proc_macro_attribute]
pub fn add_repr2(args: TokenStream, input: TokenStream) -> TokenStream {
    let mut out = TokenStream::from_str(&format!("#[::auxmac::add_repr({})]", args)).unwrap();
    out.extend(input);
    out
}
/// Appends `#[repr(<args>)]` after the existing attributes, right before the item keyword/visibility.
#[proc_macro_attribute]
pub fn append_attr(args: TokenStream, input: TokenStream) -> TokenStream {
    let mut it = input.into_iter().peekable();
    let mut out = TokenStream::new();
    loop {
        match it.peek() {
            Some(TokenTree::Punct(p)) if p.as_char() == '#' => {
                out.extend([it.next().unwrap()]);
                out.extend([it.next().unwrap()]);
            }
            _ => break,
        }
    }
    out.extend(TokenStream::from_str(&format!("#[{}]", args)).unwrap());
    out.extend(it);
    out
}
fn map_body(input: TokenStream, f: &dyn Fn(TokenStream) -> TokenStream) -> TokenStream {
    // Apply f to the last brace/paren group of the item (its body).
    let v: Vec<TokenTree> = input.into_iter().collect();
    let last = v.iter().rposition(|t| matches!(t, TokenTree::Group(g) if g.delimiter() != Delimiter::Bracket));
    v.into_iter()
        .enumerate()
        .map(|(i, t)| match t {
            TokenTree::Group(g) if Some(i) == last => {
                let mut n = Group::new(g.delimiter(), f(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}
/// Appends the given tokens to the body of the item (after its last field).
#[proc_macro_attribute]
pub fn add_to_body(args: TokenStream, input: TokenStream) -> TokenStream {
    map_body(input, &|b| {
        let mut o = b;
        o.extend(args.clone());
        o
    })
}
fn strip(ts: TokenStream, name: &str) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                    if g.delimiter() == Delimiter::Bracket {
                        let first = g.stream().into_iter().next();
                        if matches!(&first, Some(TokenTree::Ident(id)) if id.to_string() == name) {
                            i += 2;
                            continue;
                        }
                    }
                }
            }
        }
        out.push(v[i].clone());
        i += 1;
    }
    out.into_iter().collect()
}
/// Removes every `#[<name> ..]` attribute directly in the body (fields).
#[proc_macro_attribute]
pub fn strip_fields(args: TokenStream, input: TokenStream) -> TokenStream {
    let n = args.to_string();
    map_body(input, &|b| strip(b, &n))
}
/// Removes every `#[<name> ..]` attribute on the item itself.
#[proc_macro_attribute]
pub fn strip_item(args: TokenStream, input: TokenStream) -> TokenStream {
    strip(input, &args.to_string())
}
/// Puts `#[<args>]` in front of the first field of the body.
#[proc_macro_attribute]
pub fn mark_first(args: TokenStream, input: TokenStream) -> TokenStream {
    map_body(input, &|b| {
        let mut o = TokenStream::from_str(&format!("#[{}]", args)).unwrap();
        o.extend(b);
        o
    })
}
/// Identity attribute.
#[proc_macro_attribute]
pub fn identity(_args: TokenStream, input: TokenStream) -> TokenStream {
    input
}
/// Identity function-like macro.
#[proc_macro]
pub fn pass(input: TokenStream) -> TokenStream {
    input
}
/// `add_repr_macro!{ item }` -> `#[repr(packed)] item`
#[proc_macro]
pub fn packed_macro(input: TokenStream) -> TokenStream {
    let mut out = TokenStream::from_str("#[repr(packed)]").unwrap();
    out.extend(input);
    out
}
/// Crashes (control program for the crash detector).
#[proc_macro_attribute]
pub fn boom(_args: TokenStream, _input: TokenStream) -> TokenStream {
    panic!("boom")
}
/// Crashes (control program for the crash detector).
#[proc_macro]
pub fn boom_fn(_input: TokenStream) -> TokenStream {
    panic!("boom")
}
/// Output that does not parse (control program).
#[proc_macro_attribute]
pub fn garbage(_args: TokenStream, _input: TokenStream) -> TokenStream {
    TokenStream::from_str("struct = fn").unwrap()
}
/// The tokens, one by one, without what belongs to pin-project itself and without trailing commas.
fn flat(input: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = input.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                let mut a = vec![];
                flat(g.stream(), &mut a);
                let own = a.first().map_or(false, |x| x == "pin" || x == "pinned_drop" || x == "Reflect" || x == "reflect");
                let text = a.join(" ");
                if own || text.contains("pin_project") || text.contains("reflect") || text.contains("Reflect") || text.contains("__pin") || text.contains("__Pin") {
                    i += 2;
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    out.push(o.to_string());
                }
                flat(g.stream(), out);
                if !c.is_empty() {
                    if out.last().map_or(false, |x| x == ",") {
                        out.pop();
                    }
                    out.push(c.to_string());
                }
            }
            t => out.push(t.to_string()),
        }
        i += 1;
    }
}
fn reflection(input: TokenStream) -> TokenStream {
    let mut v = vec![];
    flat(input, &mut v);
    TokenStream::from_str(&format!("pub const REFLECT: &::core::primitive::str = {:?};", v.join(" "))).unwrap()
}
/// What a derive macro sees of the item.
#[proc_macro_derive(Reflect, attributes(pin))]
pub fn reflect_derive(input: TokenStream) -> TokenStream {
    reflection(input)
}
/// What an attribute macro sees of the item.
#[proc_macro_attribute]
pub fn reflect(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut o = reflection(input.clone());
    o.extend(input);
    o
}
