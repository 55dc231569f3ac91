//! Prints the SQL texts which the repository's query builders produce (run natively).
use crate::st::*;
use vsym::block_on;
pub fn record() {
    unsafe { std::env::set_var("VERIF_RECORD", "1"); }
    for n in 0..=4i64 {
        println!("VERIF-RECORD insert {n}");
        let chunks: Vec<_> = (0..n).map(|i| crate::common::chunk::Chunk::new(sid(1), cix(i), None)).collect();
        block_on(async { let p = wpool(); let mut c = p.writer_conn().await.unwrap(); crate::common::chunk::db::insert_many_chunks(chunks, &mut c).await.unwrap(); });
    }
    for n in 1..=2usize {
        let mut map = crate::common::StrategicMetadataMap::default();
        for i in 0..n { map.push_unchecked(format!("k{i}"), i as i64); }
        println!("VERIF-RECORD lookup {n}");
        block_on(async { let p = rpool(); let mut c = p.reader_conn().await.unwrap(); let _ = crate::common::submission::db::lookup_ids_by_strategic_metadata(map, crate::common::MaxSubmissions::new(std::num::NonZero::new(3).unwrap()).ok().unwrap(), &mut c).await; });
    }
}
