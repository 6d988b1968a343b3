mod docs;
mod errors;
mod files;
mod imports;
mod metamorphic;
mod network;
mod options;
mod pool;
mod release;
mod robust;
mod schemas;
mod typecheck;
mod types;

use crate::engine::Check;

pub fn all() -> Vec<Check> {
    let mut all = Vec::new();
    all.extend(pool::checks());
    all.extend(release::checks());
    all.extend(robust::checks());
    all.extend(schemas::checks());
    all.extend(types::checks());
    all.extend(typecheck::checks());
    all.extend(errors::checks());
    all.extend(docs::checks());
    all.extend(files::checks());
    all.extend(imports::checks());
    all.extend(metamorphic::checks());
    all.extend(network::checks());
    all.extend(options::checks());
    all.sort_by_key(|c| c.id);
    all
}
