//! `ureq` with every agent of the current thread running over the transport set for it.
//!
//! Everything but the way an agent comes to its connections is the real crate.

use std::{cell::RefCell, ops::Deref, rc::Rc};

use ::ureq::{config::Config, typestate};
pub use ::ureq::*;

type Factory = Rc<dyn Fn(Config) -> ::ureq::Agent>;

thread_local! {
    static FACTORY: RefCell<Option<Factory>> = const { RefCell::new(None) };
}

/// Sets what makes the agents of the current thread.
pub fn set_agent_factory(f: Option<Factory>) {
    FACTORY.with(|a| *a.borrow_mut() = f);
}

/// Stands in for [`::ureq::Agent`].
#[derive(Clone, Debug)]
pub struct Agent(::ureq::Agent);

impl Agent {
    pub fn new_with_defaults() -> Self {
        Self::new_with_config(Config::default())
    }
    pub fn new_with_config(config: Config) -> Self {
        let f = FACTORY
            .with(|a| a.borrow().clone())
            .expect("no simulated transport for this thread");
        Self(f(config))
    }
    pub fn config_builder() -> config::ConfigBuilder<typestate::AgentScope> {
        ::ureq::Agent::config_builder()
    }
}

impl From<Config> for Agent {
    fn from(config: Config) -> Self {
        Self::new_with_config(config)
    }
}

impl Deref for Agent {
    type Target = ::ureq::Agent;
    fn deref(&self) -> &::ureq::Agent {
        &self.0
    }
}

/// Like [`::ureq::agent`].
pub fn agent() -> Agent {
    Agent::new_with_defaults()
}

/// Like [`::ureq::run`].
pub fn run(request: http::Request<impl AsSendBody>) -> Result<http::Response<Body>, Error> {
    agent().run(request)
}

macro_rules! methods {
    ($($name:ident: $body:ident),*) => { $(
        /// Like the function of the same name in `ureq`.
        pub fn $name<T>(uri: T) -> RequestBuilder<typestate::$body>
        where
            http::Uri: TryFrom<T>,
            <http::Uri as TryFrom<T>>::Error: Into<http::Error>,
        {
            agent().$name(uri)
        }
    )* };
}

methods!(get: WithoutBody, head: WithoutBody, options: WithoutBody, delete: WithoutBody,
         post: WithBody, put: WithBody, patch: WithBody);
