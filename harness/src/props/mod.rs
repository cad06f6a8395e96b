pub mod cli;
pub mod composite;
pub mod failures;
pub mod deep;
pub mod laws;
pub mod broken;
pub mod parts;
pub mod query;
pub mod quotient;

pub mod quotsim;
pub mod reach;
pub mod reduction;
pub mod saved;
pub mod server;
pub mod simulate;
pub mod special;
pub mod text;
pub mod verdicts;
pub mod writing;

pub fn all() -> Vec<pbt::Spec> {
    let mut v = vec![];
    v.extend(verdicts::specs());
    v.extend(text::specs());
    v.extend(query::specs());
    v.extend(reach::specs());
    v.extend(quotsim::specs());

    v.extend(parts::specs());
    v.extend(broken::specs());
    v.extend(laws::specs());
    v.extend(quotient::specs());
    v.extend(composite::specs());
    v.extend(writing::specs());
    v.extend(reduction::specs());
    v.extend(simulate::specs());
    v.extend(failures::specs());
    v.extend(saved::specs());
    v.extend(server::specs());
    v.extend(special::specs());
    v.extend(cli::specs());
    v.extend(deep::specs());
    v
}
