//! The part of clap's derive macros that the command-line tools rely on: named options with values.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as Ts;
use quote::quote;
use syn::{parse_macro_input, punctuated::Punctuated, Attribute, Data, DeriveInput, Expr, ExprLit, Fields, GenericArgument, Ident, Lit, Meta, PathArguments, Token, Type};

#[derive(Default)]
struct Opts { long: Option<Option<String>>, short: Option<Option<char>>, num_args: Option<Expr>, default: Option<Expr>, default_t: Option<Option<Expr>>, delimiter: Option<Expr>, name: Option<String>, rename: Option<String>, alias: Vec<String>, skip: bool, required: Option<bool>, ignore_case: bool }
fn text(e: &Expr) -> Option<String> { match e { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => Some(c.value().to_string()), _ => None } }
fn opts(attrs: &[Attribute]) -> syn::Result<Opts> {
    let mut o = Opts::default();
    for a in attrs {
        if !["arg", "clap", "command", "value"].iter().any(|n| a.path().is_ident(n)) { continue; }
        let Meta::List(l) = &a.meta else { continue };
        for m in l.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)? {
            let Some(n) = m.path().get_ident().map(|i| i.to_string()) else { continue };
            let v = match &m { Meta::NameValue(v) => Some(v.value.clone()), _ => None };
            let s = v.as_ref().and_then(text);
            match (&n[..], v) {
                ("long", v) => o.long = Some(match v { None => None, Some(_) => Some(s.ok_or_else(|| syn::Error::new_spanned(&m, "UNSUPPORTED: a computed name"))?) }),
                ("short", _) => o.short = Some(s.and_then(|s| s.chars().next())),
                ("num_args", Some(v)) => o.num_args = Some(v),
                ("default_value", Some(v)) => o.default = Some(v),
                ("default_value_t", v) => o.default_t = Some(v),
                ("value_delimiter", Some(v)) => o.delimiter = Some(v),
                ("rename_all", Some(_)) => o.rename = s,
                ("name", Some(_)) => o.name = s,
                ("alias" | "visible_alias", Some(_)) => o.alias.extend(s),
                ("skip", None) => o.skip = true,
                ("ignore_case", Some(v)) => o.ignore_case = matches!(v, Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) if b.value),
                ("required", Some(Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }))) => o.required = Some(b.value),
                // texts for people, names of places, and how help looks
                ("version" | "about" | "long_about" | "author" | "help" | "long_help" | "value_name" | "value_names" | "value_enum" | "id" | "next_line_help" | "after_help" | "before_help" | "help_heading" | "value_hint" | "hide" | "arg_required_else_help" | "propagate_version" | "display_order" | "verbatim_doc_comment" | "bin_name" | "help_template" | "color" | "term_width", _) => {}
                _ => return Err(syn::Error::new_spanned(&m, format!("UNSUPPORTED: {n}"))),
            }
        }
    }
    Ok(o)
}
fn words(s: &str) -> Vec<String> {
    let (c, mut out, mut cur): (Vec<char>, Vec<String>, String) = (s.chars().collect(), vec![], String::new());
    for i in 0..c.len() {
        if c[i] == '_' { if !cur.is_empty() { out.push(std::mem::take(&mut cur)) } continue; }
        let edge = c[i].is_uppercase() && i > 0 && (c[i - 1].is_lowercase() || c[i - 1].is_numeric() || (c[i - 1].is_uppercase() && c.get(i + 1).is_some_and(|n| n.is_lowercase())));
        if edge && !cur.is_empty() { out.push(std::mem::take(&mut cur)) }
        cur.extend(c[i].to_lowercase());
    }
    if !cur.is_empty() { out.push(cur) }
    out
}
fn renamed(i: &Ident, how: Option<&str>) -> syn::Result<String> {
    let s = i.to_string();
    let s = s.strip_prefix("r#").unwrap_or(&s);
    let w = words(s);
    Ok(match how.map(|h| h.to_lowercase().replace(['-', '_'], "")).as_deref() {
        None | Some("kebabcase" | "kebab") => w.join("-"),
        Some("snakecase" | "snake") => w.join("_"),
        Some("lowercase" | "lower") => w.concat(),
        Some("uppercase" | "upper") => w.concat().to_uppercase(),
        Some("screamingsnakecase" | "screamingsnake") => w.join("_").to_uppercase(),
        Some("verbatim") => s.to_string(),
        Some("camelcase" | "camel") => w.iter().enumerate().map(|(k, x)| if k == 0 { x.clone() } else { x[..1].to_uppercase() + &x[1..] }).collect(),
        Some("pascalcase" | "pascal") => w.iter().map(|x| x[..1].to_uppercase() + &x[1..]).collect(),
        Some(h) => return Err(syn::Error::new_spanned(i, format!("UNSUPPORTED: {h}"))),
    })
}
fn inside<'a>(t: &'a Type, of: &str) -> Option<&'a Type> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != of { return None; }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    match a.args.first()? { GenericArgument::Type(t) => Some(t), _ => None }
}
#[proc_macro_derive(Parser, attributes(command, arg, clap))]
pub fn parser(i: TokenStream) -> TokenStream { let i = parse_macro_input!(i as DeriveInput); derive_parser(i).unwrap_or_else(|e| e.to_compile_error()).into() }
fn derive_parser(i: DeriveInput) -> syn::Result<Ts> {
    let name = &i.ident;
    let Data::Struct(d) = &i.data else { return Err(syn::Error::new_spanned(name, "UNSUPPORTED: not a struct")) };
    let Fields::Named(f) = &d.fields else { return Err(syn::Error::new_spanned(name, "UNSUPPORTED: fields without names")) };
    let top = opts(&i.attrs)?;
    let (mut specs, mut inits) = (vec![], vec![]);
    for (k, f) in f.named.iter().enumerate() {
        let id = f.ident.as_ref().unwrap();
        let o = opts(&f.attrs)?;
        if o.skip { inits.push(quote!(#id: Default::default())); continue; }
        let spelt = renamed(id, top.rename.as_deref())?;
        let alias = &o.alias;
        let (mut long, mut short) = (quote!(None), quote!(None));
        if let Some(l) = &o.long { let l = l.clone().unwrap_or(spelt.clone()); long = quote!(Some(#l)) }
        if let Some(s) = &o.short { let s = s.unwrap_or(spelt.chars().next().unwrap()); short = quote!(Some(#s)) }
        let is_bool = matches!(&f.ty, Type::Path(p) if p.path.is_ident("bool"));
        let (opt, rest) = match inside(&f.ty, "Option") { Some(t) => (true, t), None => (false, &f.ty) };
        let vec = inside(rest, "Vec");
        let num = match &o.num_args { Some(e) => quote!((::clap::__rt::ValueRange::from(#e)).into()), None if is_bool => quote!((0, 0)), None => quote!((1, 1)) };
        let many = vec.is_some();
        let delim = match &o.delimiter { Some(e) => quote!(Some(#e)), None => quote!(None) };
        specs.push(quote!(::clap::__rt::Spec { long: #long, short: #short, alias: &[#(#alias),*], num: #num, many: #many, delimiter: #delim, name: #spelt }));
        let ty = vec.unwrap_or(rest);
        let default = match (&o.default, &o.default_t) {
            (Some(e), _) => quote!(Some(<#ty as ::clap::FromArg>::from_arg(::std::ffi::OsStr::new(#e))?)),
            (_, Some(Some(e))) => quote!(Some(#e)), (_, Some(None)) => quote!(Some(Default::default())), _ => quote!(None::<#ty>),
        };
        let must = o.required == Some(true);
        inits.push(if is_bool { quote!(#id: m.has(#k)) }
            else if many && opt { quote!(#id: m.all::<#ty>(#k, #must)?) }
            else if many { quote!(#id: m.all::<#ty>(#k, #must)?.unwrap_or_default()) }
            else if opt { quote!(#id: match m.one::<#ty>(#k)? { Some(v) => Some(v), None => { if #must { return Err(m.missing(#k)) } #default } }) }
            else { quote!(#id: match m.one::<#ty>(#k)? { Some(v) => v, None => match #default { Some(v) => v, None => return Err(m.missing(#k)) } }) });
    }
    Ok(quote! {
        impl ::clap::Parser for #name {
            fn __parse(words: Vec<::std::ffi::OsString>) -> ::std::result::Result<Self, ::clap::Error> {
                let m = ::clap::__rt::matches(vec![#(#specs),*], words)?;
                Ok(Self { #(#inits),* })
            }
        }
    })
}
#[proc_macro_derive(ValueEnum, attributes(value, clap))]
pub fn value_enum(i: TokenStream) -> TokenStream { let i = parse_macro_input!(i as DeriveInput); derive_value(i).unwrap_or_else(|e| e.to_compile_error()).into() }
fn derive_value(i: DeriveInput) -> syn::Result<Ts> {
    let name = &i.ident;
    let Data::Enum(d) = &i.data else { return Err(syn::Error::new_spanned(name, "UNSUPPORTED: not an enumeration")) };
    let top = opts(&i.attrs)?;
    let (mut ids, mut names, mut aliases) = (vec![], vec![], vec![]);
    for v in &d.variants {
        let o = opts(&v.attrs)?;
        if o.skip { continue; }
        names.push(match &o.name { Some(n) => n.clone(), None => renamed(&v.ident, top.rename.as_deref())? });
        let a = o.alias; aliases.push(quote!(&[#(#a),*]));
        ids.push(&v.ident);
    }
    Ok(quote! {
        impl ::clap::ValueEnum for #name {
            fn value_variants<'a>() -> &'a [Self] { &[#(Self::#ids),*] }
            fn to_possible_value(&self) -> Option<::clap::builder::PossibleValue> { #[allow(unreachable_patterns)] match self { #(Self::#ids => Some(::clap::builder::PossibleValue { name: #names, aliases: #aliases }),)* _ => None } }
        }
        impl ::clap::FromArg for #name { fn from_arg(w: &::std::ffi::OsStr) -> ::std::result::Result<Self, ::clap::Error> { <Self as ::clap::ValueEnum>::from_str(w.to_str().ok_or_else(|| ::clap::Error::from("not text"))?, false).map_err(|e| ::clap::Error(e)) } }
    })
}
