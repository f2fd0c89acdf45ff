//! Stand-in for the console: a terminal is buffered by lines and anything else by blocks (by std's own writers, as in the
//! real crate), and the system may take less of a write than it was given.
use nd::env::Cell0;
use std::io::{BufWriter, LineWriter, Result, Write};
#[derive(Default)]
pub struct Console {
    pub tty: bool,
    /// how many writes may be cut short
    pub shorts: u32,
    pub seen: Vec<u8>,
}
static CONSOLE: Cell0<Option<Console>> = Cell0::new(None);
pub fn console() -> &'static mut Console {
    CONSOLE.get().get_or_insert_with(Console::default)
}
struct Raw;
impl Write for Raw {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let c = console();
        let mut n = b.len();
        if c.shorts > 0 && n > 1 && nd::choose(2, "short write") == 1 {
            c.shorts -= 1;
            n = (n + 1) / 2;
        }
        c.seen.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
enum Kind {
    Line(LineWriter<Raw>),
    Block(BufWriter<Raw>),
}
pub struct StandardStream(Kind);
pub fn stdout(_: termcolor::ColorChoice) -> StandardStream {
    StandardStream(if console().tty { Kind::Line(LineWriter::new(Raw)) } else { Kind::Block(BufWriter::new(Raw)) })
}
impl Write for StandardStream {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        match &mut self.0 {
            Kind::Line(w) => w.write(b),
            Kind::Block(w) => w.write(b),
        }
    }
    fn flush(&mut self) -> Result<()> {
        match &mut self.0 {
            Kind::Line(w) => w.flush(),
            Kind::Block(w) => w.flush(),
        }
    }
}
