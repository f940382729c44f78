mod acts;
mod check;
mod generate;
mod how;
mod mk;
mod net;
mod plan;
mod proc;
mod run;
mod shrink;
mod web;

#[global_allocator]
static ALLOC: kit::simcore::alloc::SimAlloc = kit::simcore::alloc::SimAlloc;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("entropy") {
        use std::hash::{BuildHasher, RandomState};
        println!("{:x}", RandomState::new().hash_one(1));
        return;
    }
    if kit::simcore::cov::edges() == 0 {
        println!("built without cov.sh: the code under test reports no basic-block edges");
        std::process::exit(2);
    }
    kit::simcore::cov::find_statics();
    std::panic::set_hook(Box::new(|_| {}));
    let mut v = vec![];
    ty_text::subjects(&mut v);
    ty_num::subjects(&mut v);
    ty_net::subjects(&mut v);
    kit::fns::subjects(&mut v);
    ty_domain::subjects(&mut v);
    ty_email::subjects(&mut v);
    ty_misc::subjects(&mut v);
    let ix: &'static acts::Index = Box::leak(Box::new(acts::Index::new(v)));
    std::process::exit(check::main(ix));
}
