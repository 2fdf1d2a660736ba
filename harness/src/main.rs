mod comp_bits;
mod comp_box;
mod comp_stat;
mod comp_stop;
mod comp_text;
mod comp_func;
mod comp_pop;
mod comp_shape;
mod core;
mod crash;
mod ga;
mod ga_suite;
mod j;
mod out;
mod pso;
mod pso_suite;
mod rng;
mod search;
mod twin;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // vh SUITE OUT SEED SHARD SHARDS N [SCRIPTS]
    let suite = a[1].as_str();
    let seed: u64 = a[3].parse().unwrap();
    let shard: usize = a[4].parse().unwrap();
    let shards: usize = a[5].parse().unwrap();
    let n: usize = a[6].parse().unwrap();
    core::quiet_panics();
    let mut o = out::Out::new(&a[2], shard, shards, 240);
    match suite {
        "ga-script" => ga_suite::scripts(&mut o, &a[7]),
        "pso-script" => pso_suite::scripts(&mut o, &a[7]),
        "pso" => pso_suite::suite(&mut o, seed, n, ""),
        "pso-rules" => pso_suite::suite(&mut o, seed, n, "rules-"),
        "pso-again" => pso_suite::suite(&mut o, seed, n, "again-"),
        "limits" => comp_box::suite_limits(&mut o, seed, n),
        "moves" => comp_box::suite_moves(&mut o, seed, n),
        "creation" => comp_box::suite_creation(&mut o, seed, n),
        "box-script" => comp_box::scripts(&mut o, &a[7]),
        "bytes" => comp_bits::bytes(&mut o),
        "words" => comp_bits::suite_words(&mut o, seed, n),
        "mutation" => comp_bits::suite_mutation(&mut o, seed, n),
        "numeric" => comp_bits::suite_numeric(&mut o, seed, n),
        "bits-script" => comp_bits::scripts(&mut o, &a[7]),
        "stop" => comp_stop::suite(&mut o, seed, n),
        "records" => comp_stat::suite_records(&mut o, seed, n),
        "counters" => comp_stat::suite_counters(&mut o, seed, n),
        "aggregates" => comp_stat::suite_aggregates(&mut o, seed, n),
        "rates" => comp_stat::suite_rates(&mut o, seed, n),
        "stat-script" => comp_stat::scripts(&mut o, &a[7]),
        "text" => comp_text::suite(&mut o, seed, n),
        "text-script" => comp_text::scripts(&mut o, &a[7]),
        "func" => comp_func::suite(&mut o, seed, n),
        "func-script" => comp_func::scripts(&mut o, &a[7]),
        "stop-script" => comp_stop::scripts(&mut o, &a[7]),
        "select" => comp_pop::select(&mut o, seed, n),
        "select-script" => comp_pop::select_scripts(&mut o, &a[7]),
        "pairing" => comp_pop::pairing(&mut o, seed, n),
        "pairing-script" => comp_pop::pairing_scripts(&mut o, &a[7]),
        "shapes" => comp_shape::suite(&mut o, seed, n),
        "shapes-script" => comp_shape::scripts(&mut o, &a[7]),
        "stop-long" => comp_stop::long(&mut o, seed, n),
        "marathon" => search::marathon(&mut o, seed, n),
        "crash" => crash::suite(&mut o, seed, n),
        "used" => crash::used(&mut o, seed, n),
        "pieces" => crash::pieces(&mut o, seed, n),
        "twin" => twin::suite(&mut o, seed, n),
        "search" => search::suite(&mut o, seed, n),
        "search-script" => search::scripts(&mut o, &a[7]),
        "ga" => ga_suite::suite(&mut o, seed, n),
        x => {
            eprintln!("unknown suite {}", x);
            std::process::exit(2);
        }
    }
    o.finish();
}
