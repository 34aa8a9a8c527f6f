//! The command line is not under simulation; its derives produce nothing.
use proc_macro::TokenStream;

#[proc_macro_derive(Args, attributes(arg, clap, command, group))]
pub fn args(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(Subcommand, attributes(arg, clap, command, group))]
pub fn subcommand(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(Parser, attributes(arg, clap, command, group))]
pub fn parser(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(ValueEnum, attributes(arg, clap, command, value))]
pub fn value_enum(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
