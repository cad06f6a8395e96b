//! The server, asked as a client would ask it.
use crate::model::Comp;
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::services::ecdar_backend_server::EcdarBackend;
use reveaal::ProtobufServer::services::query_response::Result as R;
pub use reveaal::ProtobufServer::ConcreteEcdarBackend;
use tonic::{Code, Request, Status};

thread_local! {
    static BACKEND: ConcreteEcdarBackend = ConcreteEcdarBackend::new(1, 4);
}

pub fn json_info(texts: &[String], hash: u32) -> pb::ComponentsInfo {
    pb::ComponentsInfo {
        components: texts
            .iter()
            .map(|t| pb::Component { rep: Some(pb::component::Rep::Json(t.clone())) })
            .collect(),
        components_hash: hash,
    }
}

pub fn xml_info(text: &str) -> pb::ComponentsInfo {
    pb::ComponentsInfo {
        components: vec![pb::Component { rep: Some(pb::component::Rep::Xml(text.to_string())) }],
        components_hash: 0,
    }
}

pub fn request(info: pb::ComponentsInfo, query: &str, reduce: bool) -> pb::QueryRequest {
    pb::QueryRequest {
        user_id: 1,
        query_id: 7,
        query: query.to_string(),
        components_info: Some(info),
        settings: Some(pb::query_request::Settings { disable_clock_reduction: !reduce }),
    }
}

pub fn send(b: &ConcreteEcdarBackend, r: pb::QueryRequest) -> Result<pb::QueryResponse, Status> {
    futures::executor::block_on(b.send_query(Request::new(r))).map(|r| r.into_inner())
}

/// An answer, reduced to what the properties speak about.
#[derive(Debug, Clone)]
pub enum Answer {
    Yes(Option<R>),
    No(R),
    /// The request was rejected.
    Rejected(String),
    /// The request ended in an internal error.
    Internal(String),
}

impl Answer {
    pub fn yes(&self) -> bool {
        matches!(self, Answer::Yes(_))
    }
    pub fn no(&self) -> bool {
        matches!(self, Answer::No(_))
    }
    pub fn short(&self) -> String {
        let s = match self {
            Answer::Yes(_) => "satisfied".to_string(),
            Answer::No(r) => format!("not satisfied: {:?}", r),
            Answer::Rejected(m) => format!("rejected: {}", m),
            Answer::Internal(m) => format!("internal error: {}", m),
        };
        s.chars().take(1500).collect()
    }
}

pub fn classify(r: Result<pb::QueryResponse, Status>) -> Answer {
    match r {
        Ok(resp) => match resp.result {
            Some(R::Success(_)) => Answer::Yes(None),
            Some(r @ (R::ReachabilityPath(_) | R::Component(_))) => Answer::Yes(Some(r)),
            Some(R::Error(e)) => Answer::Rejected(e.error),
            Some(r) => Answer::No(r),
            None => Answer::Internal("no result".into()),
        },
        Err(s) if s.code() == Code::InvalidArgument => Answer::Rejected(s.message().to_string()),
        Err(s) => Answer::Internal(s.message().to_string()),
    }
}

pub fn ask_info(info: pb::ComponentsInfo, query: &str, reduce: bool) -> Answer {
    BACKEND.with(|b| classify(send(b, request(info, query, reduce))))
}

pub fn texts(comps: &[&Comp]) -> Vec<String> {
    comps.iter().filter(|c| c.name != crate::region::QUOTIENT).map(|c| c.json()).collect()
}

pub fn ask(comps: &[&Comp], query: &str) -> Answer {
    ask_info(json_info(&texts(comps), 0), query, false)
}

pub fn start(comps: &[&Comp], composition: &str) -> Result<pb::SimulationStepResponse, Status> {
    BACKEND.with(|b| {
        futures::executor::block_on(b.start_simulation(Request::new(pb::SimulationStartRequest {
            simulation_info: Some(sim_info(comps, composition)),
        })))
        .map(|r| r.into_inner())
    })
}

pub fn sim_info(comps: &[&Comp], composition: &str) -> pb::SimulationInfo {
    pb::SimulationInfo {
        user_id: 1,
        component_composition: composition.to_string(),
        components_info: Some(json_info(&texts(comps), 0)),
    }
}

pub fn step(comps: &[&Comp], composition: &str, decision: pb::Decision) -> Result<pb::SimulationStepResponse, Status> {
    BACKEND.with(|b| {
        futures::executor::block_on(b.take_simulation_step(Request::new(pb::SimulationStepRequest {
            simulation_info: Some(sim_info(comps, composition)),
            chosen_decision: Some(decision),
        })))
        .map(|r| r.into_inner())
    })
}
