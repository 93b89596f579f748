//! tokenizer properties
use styx_tokenizer::{TokenKind, Tokenizer};

/// tokens tile the source: contiguous, exact text, in order, nothing lost
pub fn tiling(src: &str) {
    let n = src.len();
    let mut t = Tokenizer::new(src);
    let mut pos = 0usize;
    let mut k = 0;
    let mut start = false;
    loop {
        let x = t.next_token();
        let (a, z) = (x.span.start as usize, x.span.end as usize);
        vx::check(a == pos && z >= a && z <= n, "token does not start where the previous one ended, or leaves the source");
        if x.kind == TokenKind::Eof {
            vx::check(a == n && z == n && x.text.is_empty(), "Eof before the end of the source");
            break;
        }
        vx::check(src.is_char_boundary(z), "token ends inside a character");
        vx::check(x.text.as_ptr() as usize == src.as_ptr() as usize + a && x.text.len() == z - a, "token text is not the source at its span");
        // the only token without text: the error for a heredoc that ends right after its start
        vx::check(z > a || (x.kind == TokenKind::Error && a == n && start), "empty token");
        start = x.kind == TokenKind::HeredocStart;
        pos = z;
        k += 1;
        vx::check(k <= n + 1, "more tokens than characters");
        vx::observe(x.kind as u64);
        vx::observe(z as u64);
    }
    let x = t.next_token();
    vx::check(x.kind == TokenKind::Eof && x.span.start as usize == n, "token after Eof");
    vx::cover(0);
}
