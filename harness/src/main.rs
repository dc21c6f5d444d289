#[macro_use]
mod pbt;
mod bidi_model;
mod c_bidi;
mod c_ucd;
mod c_char;
#[cfg(feature = "cli")]
mod c_cli;
#[cfg(feature = "decl")]
mod c_decl;
mod c_gen;
mod c_idna;
mod c_norm;
mod c_print;
mod c_pure;
mod c_work;
mod c_segment;
mod gen;
mod norm_model;
mod props;
mod refdata;
mod seg_model;

fn check(id: &str) -> Option<pbt::Check> {
    Some(match id {
        "C01" => c_segment::c01(),
        "C02" => c_segment::c02(),
        "C03" => c_segment::c03(),
        "C04" => c_segment::c04(),
        "C05" => c_norm::c05(),
        "C06" => c_norm::c06(),
        "C07" => c_norm::c07(),
        "C08" => c_bidi::c08(),
        "C09" => c_bidi::c09(),
        "C10" => c_bidi::c10(),
        "C11" => c_bidi::c11(),
        "C12" => c_idna::c12(),
        "C13" => c_idna::c13(),
        "C14" => c_idna::c14(),
        "C15" => c_idna::c15(),
        "C16" => c_char::c16(),
        "C17" => c_char::c17(),
        "C18" => c_char::c18(),
        "C27" => c_char::c27(),
        "C19" => c_ucd::c19(),
        "C20" => c_ucd::c20(),
        "C21" => c_ucd::c21(),
        "C22" => c_ucd::c22(),
        "C23" => c_ucd::c23(),
        #[cfg(feature = "cli")]
        "C24" => c_cli::c24(),
        #[cfg(feature = "cli")]
        "C25" => c_cli::c25(),
        "C26" => c_gen::c26(),
        "C29" => c_print::c29(),
        "C30" => c_pure::c30(),
        "C31" => c_work::c31(),
        #[cfg(feature = "decl")]
        "C28" => c_decl::c28(),
        _ => return None,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: unic-verif PROPERTY [--replay FILE]");
        std::process::exit(2);
    }
    if args[0] == "--pure" {
        c_pure::child(args[1].parse().unwrap());
        return;
    }
    if args[0] == "--dump" {
        props::dump(&args[1]);
        return;
    }
    if args[0] == "--dump-human" {
        c_ucd::dump_human();
        return;
    }
    if args[0] == "--dump-bidi" {
        c_bidi::dump(args[1].parse().unwrap());
        return;
    }
    if args[0] == "--dump-idna" {
        c_idna::dump(args[1].parse().unwrap());
        return;
    }
    std::process::exit(pbt::main_with(&check, &args));
}
