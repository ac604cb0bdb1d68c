#[cfg(kani)]
mod ws {
    use webparse::ws::*;
    #[kani::proof]
    fn close_code() {
        let n: u16 = kani::any();
        let c = CloseCode::from(n);
        let m: u16 = c.into();
        assert!(m == n);
    }
}
