use ethereum_consensus::{phase0::SignedBeaconBlockHeader, types::mainnet::BeaconBlock};
use host::{BeaconClient, BlockHeaderResponse, BlockResponse, FinalizedCheckpointResponse, mainnet::BeaconState};
use http::StatusCode;
use models::prim;
use std::collections::HashMap;
use std::fmt::Display;
use z_core::{Checkpoint, ConsensusState};

#[derive(serde::Deserialize)]
struct Response<T> { data: T, meta: HashMap<String, serde_json::Value> }
#[derive(serde::Deserialize)]
struct VersionedResponse<T> { version: ethereum_consensus::Fork, inner: Response<T> }
enum Fail { Absent, Other }

/// GET {endpoint}{path}: an answer, "absent" (HTTP 404), or another failure.
async fn fetch<T: serde::de::DeserializeOwned>(c: &BeaconClient, path: &str) -> Result<T, Fail> {
    let endpoint: url::Url = prim::field(c, "endpoint");
    let http: reqwest_middleware::ClientWithMiddleware = prim::field(c, "http");
    let url = match endpoint.join(path) { Ok(u) => u, Err(_) => return Err(Fail::Other) };
    let resp = match http.get(url).send().await { Ok(r) => r, Err(_) => return Err(Fail::Other) };
    let r = match resp.error_for_status() { Ok(r) => r.json::<T>().await, Err(e) => Err(e) };
    match r {
        Ok(v) => Ok(v),
        Err(e) => if e.status() == Some(StatusCode::NOT_FOUND) { Err(Fail::Absent) } else { Err(Fail::Other) },
    }
}
// ---- H05
pub async fn h05_header<D: Display>(c: &BeaconClient, id: D) -> Result<Option<BlockHeaderResponse>, ()> {
    match fetch::<Response<BlockHeaderResponse>>(c, &format!("eth/v1/beacon/headers/{id}")).await {
        Ok(r) => Ok(Some(r.data)),
        Err(Fail::Absent) => Ok(None),
        Err(Fail::Other) => Err(()),
    }
}
pub async fn h05_block<D: Display>(c: &BeaconClient, id: D) -> Result<Option<BeaconBlock>, ()> {
    match fetch::<Response<BlockResponse>>(c, &format!("eth/v2/beacon/blocks/{id}")).await {
        Ok(r) => Ok(Some(r.data.message)),
        Err(Fail::Absent) => Ok(None),
        Err(Fail::Other) => Err(()),
    }
}
pub async fn h05_reader_header<D: Display>(c: &BeaconClient, id: D) -> Result<Option<SignedBeaconBlockHeader>, ()> {
    match h05_header(c, id).await? { Some(r) => Ok(Some(r.header)), None => Ok(None) }
}
// ---- H06
pub async fn h06_state<D: Display>(c: &BeaconClient, id: D) -> Result<BeaconState, ()> {
    match fetch::<VersionedResponse<BeaconState>>(c, &format!("eth/v2/debug/beacon/states/{id}")).await {
        Ok(r) => if r.version.to_string() == r.inner.data.version().to_string() { Ok(r.inner.data) } else { Err(()) },
        Err(_) => Err(()),
    }
}
// ---- H09
pub async fn h09_checkpoints<D: Display>(c: &BeaconClient, id: D) -> Result<FinalizedCheckpointResponse, ()> {
    match fetch::<Response<FinalizedCheckpointResponse>>(c, &format!("eth/v1/beacon/states/{id}/finality_checkpoints")).await {
        Ok(r) => Ok(r.data),
        Err(_) => Err(()),
    }
}
pub async fn h09_consensus<D: Display>(c: &BeaconClient, id: D) -> Result<ConsensusState, ()> {
    let r = h09_checkpoints(c, id).await?;
    Ok(ConsensusState::new(
        Checkpoint::new(r.current_justified.epoch.into(), r.current_justified.root),
        Checkpoint::new(r.finalized.epoch.into(), r.finalized.root),
    ))
}
