//@ property=A01
// Only what the manifest vouches for becomes an asset, byte for byte.
use ringrtc::common::SemanticVersion;
use ringrtc::core::assets::*;
use ringrtc::protobuf::assets::AssetMetadata;
use sha2::{Digest, Sha512};

fn entry(group: &str, version: &str, genuine: &[u8], disabled: bool) -> AssetManifestEntry {
    AssetManifestEntry {
        metadata: AssetMetadata {
            asset_group: group.to_string(),
            version: version.to_string(),
            size_bytes: genuine.len() as u32,
            sha512_hash: Sha512::digest(genuine).to_vec(),
        },
        disabled,
    }
}

//@ harness bound="3_manifest_entries_of_1..3_unknown_bytes,any_offered_content_of_0..5_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_a_verify() {
    let groups = ["a", "a", "b"];
    let versions = ["1.0.0", "1.2.0", "1.0.0"];
    let ver = [SemanticVersion::new(1, 0, 0), SemanticVersion::new(1, 2, 0), SemanticVersion::new(1, 0, 0)];
    let mut genuine: Vec<Vec<u8>> = vec![];
    let mut man = vec![];
    let mut disabled = [false; 3];
    for i in 0..3 {
        let n = if i == 1 { sx::pick(1, 3) as usize } else { 2 };
        let g = sx::vec(n);
        disabled[i] = i < 2 && sx::concb(sx::bool());
        man.push(entry(groups[i], versions[i], &g, disabled[i]));
        genuine.push(g);
    }
    let mut m = AssetManager::new(man);
    let group = ["a", "b", "c"][sx::pick(0, 2) as usize];
    let len = sx::pick(0, 5) as usize;
    let content = sx::vec(len);
    // the first entry of the group whose bytes the content starts with
    let mut hit = None;
    for i in 0..3 {
        let g = &genuine[i];
        if hit.is_none() && groups[i] == group && len >= g.len() && sx::concb(content[..g.len()] == g[..]) {
            hit = Some(i);
        }
    }
    let r = m.add_asset_for_feature(group, AssetHandle::Content(content.clone()));
    let reg = m.get_registry();
    match hit {
        Some(i) if !disabled[i] => {
            sx::check!(r.is_ok());
            sx::check!(m.get_options_for(group) == Some(vec![ver[i]]));
            let a = reg.get_asset(group, ver[i]);
            sx::check!(a.as_ref().is_some_and(|a| *a.content == genuine[i]));
            sx::cover!(i == 1 && len == 5);
            // a second copy of the same version is refused and changes nothing
            let r = m.add_asset_for_feature(group, AssetHandle::Content(content));
            sx::check!(r == Err(AssetError::AssetAlreadyRegistered(ver[i], group.to_string())));
            sx::check!(m.get_options_for(group) == Some(vec![ver[i]]));
        }
        Some(_) => {
            sx::check!(r == Err(AssetError::DisabledAsset));
            sx::check!(m.get_options_for(group).is_none());
            sx::cover!();
        }
        None => {
            sx::check!(match r {
                Err(AssetError::UnsupportedAsset(g)) => group == "c" && g == group,
                Err(AssetError::InvalidAssetPayload { asset_group, .. }) => group != "c" && asset_group == group,
                _ => false,
            });
            sx::check!(m.get_options_for(group).is_none());
            sx::cover!(len == 5);
        }
    }
    for g in ["a", "b", "c"] {
        if g != group {
            sx::check!(m.get_options_for(g).is_none());
        }
    }
}

/// Everything registered stays available, listed in the order of its versions.
//@ harness bound="3_versions_of_one_group_with_parts_of_0..12,any_order_of_arrival"
#[unsafe(no_mangle)]
pub extern "C" fn hx_a_order() {
    let parts = [0u16, 2, 9, 12];
    let mut man = vec![];
    let mut ver = vec![];
    for i in 0..3u8 {
        let (a, b, c) = (
            parts[sx::pick(0, 1) as usize * 3],
            parts[sx::pick(1, 3) as usize],
            0,
        );
        man.push(entry("g", &format!("{a}.{b}.{c}"), &[i, 7], false));
        ver.push(SemanticVersion::new(a, b, c));
    }
    let mut m = AssetManager::new(man);
    let first = sx::pick(0, 2);
    let mut have: Vec<SemanticVersion> = vec![];
    for k in 0..3u64 {
        let i = ((first + k * (1 + first % 2)) % 3) as usize;
        let r = m.add_asset_for_feature("g", AssetHandle::Content(vec![i as u8, 7]));
        let dup = have.contains(&ver[i]);
        sx::check!(r.is_err() == dup);
        if !dup {
            have.push(ver[i]);
            let a = m.get_registry().get_asset("g", ver[i]);
            sx::check!(a.is_some_and(|a| *a.content == vec![i as u8, 7]));
        }
        let got = m.get_options_for("g").unwrap();
        sx::check!(got.len() == have.len());
        for v in &have {
            sx::check!(got.contains(v));
        }
        for w in got.windows(2) {
            sx::check!(w[0] < w[1]);
        }
        sx::cover!(got.len() == 3);
        sx::cover!(dup);
    }
}
