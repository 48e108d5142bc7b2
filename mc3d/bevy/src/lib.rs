//! Stands in for the crate `bevy`: re-exports the real types that the library under test uses.
pub use bevy_ecs as ecs;
pub use bevy_math as math;
pub use bevy_transform as transform;

pub mod prelude {
    pub use bevy_ecs::prelude::*;
    pub use bevy_math::prelude::*;
    pub use bevy_transform::prelude::*;
}
