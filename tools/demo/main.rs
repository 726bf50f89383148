mod util;
use util::*;
fn main() {
    let h = headers("From: a@example.com\nTo: b@example.org\nSubject: x\n");
    for (k, rec) in [(rsa(), rsa_record()), (ed(), ed_record())] {
        let o = sign(&h, b"hello\r\n", request("example.com", k));
        let d = Dns::new().with("sel._domainkey.example.com.", rec);
        let r = verify(&d, &on_top(&o, &h), b"hello\r\n", &Config::default());
        println!("{:?}", r[0].status);
        assert!(passes(&r[0]));
    }
}
