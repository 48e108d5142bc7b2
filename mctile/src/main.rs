mod addressing;
mod files;
mod map;
mod rect;
mod resolve;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("begin-huge") {
        rect::begin_huge();
        return;
    }
    mckit::main(&[
        ("C15", map::c15),
        ("C16", map::c16),
        ("C17", files::c17),
        ("C18", addressing::c18),
        ("C19", resolve::c19),
        ("C20", rect::c20),
    ])
}
