//! Stand-in for the trusted client API: every choice the environment has is taken by the explorer.
use crate::env::*;
use crate::spec::ImplDisk_t::*;
use crate::spec::MapSpec_t::ID;
use crate::trusted::KVStoreTokenized_t::*;
use crate::trusted::ProgramModelTrait_t::*;
use crate::trusted::ReqReply_t::*;
use vstd::prelude::*;
use vstd::tokens::InstanceId;
pub struct ClientAPI<ProgramModel: ProgramModelTrait> {
    pub _p: std::marker::PhantomData<(ProgramModel,)>,
}
pub struct PollResult {
    pub user_input_ready: bool,
    pub disk_response_ready: bool,
}
impl<ProgramModel: ProgramModelTrait> ClientAPI<ProgramModel> {
    pub fn new(instance: Ghost<InstanceId>) -> Self {
        Self { _p: std::marker::PhantomData }
    }
    pub fn receive_request(&mut self, print: bool) -> (Request, Tracked<KVStoreTokenized::requests<ProgramModel>>) {
        (with(|e| e.receive_request()), Tracked::assume_new())
    }
    pub fn receive_noop_request(&mut self) -> (Request, Tracked<KVStoreTokenized::requests<ProgramModel>>) {
        (with(|e| e.noop_request()), Tracked::assume_new())
    }
    pub fn send_reply(&self, reply: Reply, reply_shard: Tracked<KVStoreTokenized::replies<ProgramModel>>, print: bool) {
        with(|e| e.send_reply(reply))
    }
    pub fn send_disk_request(&mut self, disk_req: IDiskRequest, id_perm: Tracked<ID>, disk_request_tokens: Tracked<KVStoreTokenized::disk_requests_multiset<ProgramModel>>) -> ID {
        with(|e| e.send_disk(disk_req))
    }
    pub fn receive_disk_response(&mut self) -> (ID, IDiskResponse, Tracked<KVStoreTokenized::disk_responses_multiset<ProgramModel>>) {
        let (id, r) = with(|e| e.receive_disk());
        (id, r, Tracked::assume_new())
    }
    pub fn poll(&self) -> PollResult {
        let (u, d) = with(|e| e.poll());
        PollResult { user_input_ready: u, disk_response_ready: d }
    }
}
