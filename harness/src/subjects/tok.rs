// Included by the monitors that use ledger elements.
#[allow(unused_macros)]
macro_rules! ledger_subjects {
    ($l:ident, $name:expr, $t:ty) => {{
        $l.push(subject!($name, $t, U3, U3; vec mat sq def ar div sqar clamp ext lin cof cross show iters));
        $l.push(subject!($name, $t, U2, U2; vec mat sq def ar div sqar clamp ext lin cof diag_ops_22 show iters));
        $l.push(subject!($name, $t, U1, U1; vec mat sq def ar div sqar clamp ext lin show iters));
        $l.push(subject!($name, $t, U4, U4; vec mat sq def ar div sqar clamp ext lin cof diag_ops_44 show iters));
        $l.push(subject!($name, $t, U5, U5; vec mat sq def ar div sqar clamp ext lin cof show iters));
        $l.push(subject!($name, $t, U0, U0; vec mat sq def ar div sqar clamp show iters));
        $l.push(subject!($name, $t, U0, U2; vec mat def ar div clamp diag_ops_02 show iters));
        $l.push(subject!($name, $t, U2, U0; vec mat def ar div clamp iters));
        $l.push(subject!($name, $t, U2, U3; vec mat def ar div clamp show iters));
        $l.push(subject!($name, $t, U3, U2; vec mat def ar div clamp diag_ops_32 show iters));
        $l.push(subject!($name, $t, U2, U4; vec mat def ar div clamp diag_ops_24 show iters));
        $l.push(subject!($name, $t, U1, U7; vec mat def ar div clamp show iters));
        $l.push(subject!($name, $t, U6, U1; vec mat def ar div clamp show iters));
        ledger_flat!($l, $name, $t; U0 U0, U0 U3, U1 U1, U2 U3, U3 U2, U4 U2, U1 U5, U5 U1, U4 U8, U2 U16, U32 U1);
    }};
}
/// Elements of other sizes and alignments.
#[allow(unused_macros)]
macro_rules! sized_ledger {
    ($l:ident, $name:expr, $t:ty) => {{
        $l.push(subject!($name, $t, U3, U3; vec mat sq def ar div sqar clamp ext lin cof cross show iters));
        $l.push(subject!($name, $t, U2, U5; vec mat def ar div clamp show iters));
        $l.push(subject!($name, $t, U4, U1; vec mat def ar div clamp show iters));
        $l.push(subject!($name, $t, U1, U12; vec mat iters));
        $l.push(subject!($name, $t, U0, U2; vec mat def ar div clamp show iters));
        $l.push(subject!($name, $t, U4, U4; ext lin cof sqar sq));
        $l.push(chunk_subject!($name, $t, U6, U2));
        $l.push(chunk_subject!($name, $t, U5, U1));
        $l.push(flat_subject!($name, $t, U2, U3));
    }};
}
#[allow(unused_macros)]
macro_rules! sized_ledgers { ($l:ident) => {
    sized_ledger!($l, "56-byte tok", Tok56);
    sized_ledger!($l, "128-byte tok", Tok128);
    sized_ledger!($l, "352-byte tok", Tok352);
    sized_ledger!($l, "2080-byte tok", Tok2080);
    sized_ledger!($l, "aligned tok", TokAl);
} }
macro_rules! ledger_flat {
    ($l:ident, $name:expr, $t:ty; $($r:ident $c:ident),*) => { $( $l.push(flat_subject_any!($name, $t, $r $c)); )* };
}
macro_rules! flat_subject_any {
    ($name:expr, $t:ty, U0 U0) => { chunk_subject!($name, $t, U0, U4) };
    ($name:expr, $t:ty, $r:ident $c:ident) => { flat_subject!($name, $t, $r, $c) };
}
macro_rules! length_subject { ($l:ident, $name:expr, $t:ty, $n:ident, $k:expr) => { $l.push(subject!($name, $t, U1, $n; vec)); } }
macro_rules! chunks_subject { ($l:ident, $name:expr, $t:ty, $n:ident, $i:ident, $a:expr, $b:expr) => { $l.push(chunk_subject!($name, $t, $n, $i)); } }
#[allow(unused_macros)]
macro_rules! tok_retypes { ($l:ident) => {
    $l.push(retype_subject!("tok to heap tok", Tok, HTok, U2, U3));
    $l.push(retype_subject!("heap tok to tok", HTok, Tok, U3, U2));
    $l.push(mixed_subject!(U2, U3));
} }
#[allow(unused_macros)]
macro_rules! more_tok_retypes { ($l:ident) => {
    $l.push(retype_subject!("tok to heap tok", Tok, HTok, U1, U9));
    $l.push(retype_subject!("heap tok to tok", HTok, Tok, U4, U4));
    $l.push(retype_subject!("heap tok to heap tok", HTok, HTok, U5, U1));
    $l.push(mixed_subject!(U1, U1));
    $l.push(mixed_subject!(U3, U2));
    $l.push(mixed_subject!(U1, U20));
} }
