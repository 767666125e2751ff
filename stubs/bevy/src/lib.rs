//! Stand-in for bevy used only while analysing auburn's `bevy` feature: the
//! real `Transform` (bevy_transform 0.15.0, MIT/Apache-2.0), glam's types and
//! a `Component` derive.  auburn uses nothing else of bevy; anything else it
//! starts to use fails to resolve here and is reported, not guessed at.
pub mod math {
    pub use glam::*;
    pub mod prelude {
        pub use glam::{EulerRot, IVec2, IVec3, Mat2, Mat3, Mat4, Quat, Vec2, Vec3, Vec3Swizzles, Vec4};
    }
}
pub mod ecs {
    pub mod component {
        pub use bevy_stub_derive::Component;
    }
}
pub mod transform {
    pub use crate::Transform;
    pub mod components {
        pub use crate::Transform;
    }
}
pub mod prelude {
    pub use crate::Transform;
    pub use bevy_stub_derive::Component;
    pub use glam::{EulerRot, IVec2, IVec3, Mat2, Mat3, Mat4, Quat, Vec2, Vec3, Vec3Swizzles, Vec4};
}
use glam::{Affine3A, Mat4, Quat, Vec3};

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Transform {
    pub translation: Vec3,
    pub rotation: Quat,
    pub scale: Vec3,
}

impl Transform {
    pub const IDENTITY: Self = Transform { translation: Vec3::ZERO, rotation: Quat::IDENTITY, scale: Vec3::ONE };
    #[inline]
    pub const fn from_xyz(x: f32, y: f32, z: f32) -> Self {
        Self::from_translation(Vec3::new(x, y, z))
    }
    #[inline]
    pub fn from_matrix(world_from_local: Mat4) -> Self {
        let (scale, rotation, translation) = world_from_local.to_scale_rotation_translation();
        Transform { translation, rotation, scale }
    }
    #[inline]
    pub const fn from_translation(translation: Vec3) -> Self {
        Transform { translation, ..Self::IDENTITY }
    }
    #[inline]
    pub const fn from_rotation(rotation: Quat) -> Self {
        Transform { rotation, ..Self::IDENTITY }
    }
    #[inline]
    pub const fn from_scale(scale: Vec3) -> Self {
        Transform { scale, ..Self::IDENTITY }
    }
    #[inline]
    #[must_use]
    pub const fn with_translation(mut self, translation: Vec3) -> Self {
        self.translation = translation;
        self
    }
    #[inline]
    #[must_use]
    pub const fn with_rotation(mut self, rotation: Quat) -> Self {
        self.rotation = rotation;
        self
    }
    #[inline]
    #[must_use]
    pub const fn with_scale(mut self, scale: Vec3) -> Self {
        self.scale = scale;
        self
    }
    #[inline]
    pub fn compute_matrix(&self) -> Mat4 {
        Mat4::from_scale_rotation_translation(self.scale, self.rotation, self.translation)
    }
    #[inline]
    pub fn compute_affine(&self) -> Affine3A {
        Affine3A::from_scale_rotation_translation(self.scale, self.rotation, self.translation)
    }
    #[inline]
    pub fn rotate(&mut self, rotation: Quat) {
        self.rotation = rotation * self.rotation;
    }
    #[inline]
    #[must_use]
    pub fn mul_transform(&self, transform: Transform) -> Self {
        let translation = self.transform_point(transform.translation);
        let rotation = self.rotation * transform.rotation;
        let scale = self.scale * transform.scale;
        Transform { translation, rotation, scale }
    }
    #[inline]
    pub fn transform_point(&self, mut point: Vec3) -> Vec3 {
        point = self.scale * point;
        point = self.rotation * point;
        point += self.translation;
        point
    }
    #[inline]
    #[must_use]
    pub fn is_finite(&self) -> bool {
        self.translation.is_finite() && self.rotation.is_finite() && self.scale.is_finite()
    }
}
impl Default for Transform {
    fn default() -> Self {
        Self::IDENTITY
    }
}
impl core::ops::Mul<Transform> for Transform {
    type Output = Transform;
    fn mul(self, transform: Transform) -> Self::Output {
        self.mul_transform(transform)
    }
}
impl core::ops::Mul<Vec3> for Transform {
    type Output = Vec3;
    fn mul(self, value: Vec3) -> Self::Output {
        self.transform_point(value)
    }
}
