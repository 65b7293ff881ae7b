mod bufs;
mod conf;
mod core_world;
mod frames;
mod mt;
mod net;
mod prom;
mod real;
mod route;
mod udp;
mod wire;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("KV_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match a[1].as_str() {
        "core" => core_world::main(&a[2], &a[3]),
        "mt" => mt::main(&a[2], &a[3]),
        "conf" => conf::main(&a[2], &a[3]),
        "net" => net::main(&a[2], &a[3]),
        "bufs" => bufs::main(&a[2], &a[3]),
        "frames" => frames::main(&a[2], &a[3]),
        "wire" => wire::main(&a[2], &a[3]),
        "route" => route::main(&a[2], &a[3]),
        "prom" => prom::main(&a[2], &a[3]),
        "udp" => udp::main(&a[2], &a[3]),
        "real" => real::main(&a[2], &a[3]),
        x => panic!("unknown subcommand {}", x),
    }
}
