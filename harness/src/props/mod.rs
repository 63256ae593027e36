use vharness::Rep;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c14;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c15;
mod c16;
mod c16_env;
mod c16_matching;
mod c16_types;

pub fn run(id: &str, rep: &mut Rep) {
    match id {
        "C01" => c01::run(rep),
        "C02" => c02::run(rep),
        "C03" => c03::run(rep),
        "C04" => c04::run(rep),
        "C05" => c05::run(rep),
        "C06" => c06::run(rep),
        "C14" => c14::run(rep),
        "C07" => c07::run(rep),
        "C08" => c08::run(rep),
        "C09" => c09::run(rep),
        "C10" => c10::run(rep),
        "C11" => c11::run(rep),
        "C12" => c12::run(rep),
        "C15" => c15::run(rep),
        "C13" => c13::run(rep),
        "C16" => c16::run(rep),
        _ => {
            eprintln!("no executable contract for {id}");
            std::process::exit(4)
        }
    }
}
