//! Random meshes, images and materials. Every field that a scene transfer carries is varied.

use bevy::{
    asset::RenderAssetUsages,
    image::{
        ImageAddressMode, ImageCompareFunction, ImageFilterMode, ImageSampler,
        ImageSamplerBorderColor, ImageSamplerDescriptor,
    },
    math::Affine2,
    pbr::{OpaqueRendererMethod, ParallaxMappingMethod, UvChannel},
    prelude::*,
    render::{
        mesh::{Indices, MeshVertexAttribute, PrimitiveTopology, VertexAttributeValues},
        render_resource::{
            AstcBlock, AstcChannel, Extent3d, Face, TextureAspect, TextureDescriptor, TextureDimension, TextureFormat,
            TextureUsages, TextureViewDescriptor, TextureViewDimension, VertexFormat,
        },
    },
};

use crate::rng::Rng;

pub const CUSTOM: MeshVertexAttribute =
    MeshVertexAttribute::new("Custom", 988_540_917, VertexFormat::Float32x2);

/// A coordinate on a 1/16 grid.
pub fn grid(r: &mut Rng, lo: i64, hi: i64) -> f32 {
    r.range(lo * 16, hi * 16) as f32 / 16.0
}

/// Vertices and triangles of a walkable ground with some height variation.
pub fn floor_geometry(r: &mut Rng) -> (Vec<[f32; 3]>, Vec<u32>) {
    let n = r.range(1, 3) as u32;
    let step = r.range(3, 6) as f32;
    let (x0, z0) = (-(n as f32) * step / 2.0, -(n as f32) * step / 2.0);
    let mut v = Vec::new();
    for i in 0..=n {
        for j in 0..=n {
            let y = if r.pct(30) { grid(r, 0, 1) } else { 0.0 };
            v.push([x0 + i as f32 * step, y, z0 + j as f32 * step]);
        }
    }
    let mut t = Vec::new();
    for i in 0..n {
        for j in 0..n {
            let a = i * (n + 1) + j;
            let (b, c, d) = (a + 1, a + n + 1, a + n + 2);
            t.extend([a, b, d, a, d, c]);
        }
    }
    (v, t)
}

/// Hilly ground, tens of metres wide.
pub fn landscape_geometry(r: &mut Rng) -> (Vec<[f32; 3]>, Vec<u32>) {
    let n = r.range(30, 70) as u32;
    let amplitude = *r.pick(&[0.0f32, 0.3, 0.6, 0.6, 1.0, 1.0, 2.0]);
    let (k, l) = (r.f(0.2, 0.9), r.f(0.2, 0.9));
    let holes = r.pct(20);
    let half = n as f32 / 2.0;
    let mut v = Vec::new();
    for i in 0..=n {
        for j in 0..=n {
            let y = amplitude * ((i as f32 * k).sin() + (j as f32 * l).cos());
            v.push([i as f32 - half, (y * 16.0).round() / 16.0, j as f32 - half]);
        }
    }
    let mut t = Vec::new();
    for i in 0..n {
        for j in 0..n {
            if holes && r.below(40) == 0 {
                continue;
            }
            let a = i * (n + 1) + j;
            let (b, c, d) = (a + 1, a + n + 1, a + n + 2);
            t.extend([a, b, d, a, d, c]);
        }
    }
    (v, t)
}

/// Where things stand on a landscape.
pub fn landscape_place(r: &mut Rng) -> Transform {
    let y = grid(r, -1, 2);
    let mut t = Transform::from_xyz(grid(r, -30, 30), y, grid(r, -30, 30));
    if r.pct(30) {
        t.rotation = Quat::from_rotation_y(r.f(-3.0, 3.0));
    }
    if r.pct(30) {
        t.scale = Vec3::new(*r.pick(&[0.25, 1.0, 4.0]), *r.pick(&[0.25, 1.0, 2.0]), *r.pick(&[0.25, 1.0, 4.0]));
    }
    t
}

pub fn box_geometry(r: &mut Rng) -> (Vec<[f32; 3]>, Vec<u32>) {
    let (x, y, z) = (grid(r, 1, 2), grid(r, 1, 2), grid(r, 1, 2));
    let mut v = Vec::new();
    for i in 0..8 {
        v.push([
            if i & 1 == 0 { -x } else { x },
            if i & 2 == 0 { 0.0 } else { y },
            if i & 4 == 0 { -z } else { z },
        ]);
    }
    let t = vec![
        0, 2, 3, 0, 3, 1, 4, 5, 7, 4, 7, 6, 0, 1, 5, 0, 5, 4, 2, 6, 7, 2, 7, 3, 0, 4, 6, 0, 6, 2,
        1, 3, 7, 1, 7, 5,
    ];
    (v, t)
}

pub fn soup_geometry(r: &mut Rng) -> (Vec<[f32; 3]>, Vec<u32>) {
    let n = r.range(3, 9) as usize;
    let v = (0..n)
        .map(|_| [grid(r, -4, 4), grid(r, -2, 2), grid(r, -4, 4)])
        .collect::<Vec<_>>();
    let t = (0..r.range(1, 5) * 3).map(|_| r.idx(n) as u32).collect();
    (v, t)
}

fn f2(r: &mut Rng, n: usize) -> Vec<[f32; 2]> {
    (0..n).map(|_| [r.f(-2.0, 2.0), r.f(-2.0, 2.0)]).collect()
}
fn f3(r: &mut Rng, n: usize) -> Vec<[f32; 3]> {
    (0..n)
        .map(|_| [r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)])
        .collect()
}
fn f4(r: &mut Rng, n: usize) -> Vec<[f32; 4]> {
    (0..n)
        .map(|_| [r.f(0.0, 1.0), r.f(0.0, 1.0), r.f(0.0, 1.0), r.f(0.0, 1.0)])
        .collect()
}

/// What a mesh is for.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum MeshKind {
    Floor,
    Box,
    Soup,
    NotIndexed,
    OtherTopology,
    Odd,
}

pub fn mesh_kind(r: &mut Rng, affecting_only: bool) -> MeshKind {
    use MeshKind::*;
    let w: &[u32] = if affecting_only {
        &[4, 3, 1, 0, 0, 0]
    } else {
        &[4, 4, 3, 1, 1, 1]
    };
    [Floor, Box, Soup, NotIndexed, OtherTopology, Odd][r.weighted(w)]
}

pub fn mesh(r: &mut Rng, kind: MeshKind) -> Mesh {
    let topo = if kind == MeshKind::OtherTopology {
        *r.pick(&[
            PrimitiveTopology::PointList,
            PrimitiveTopology::LineList,
            PrimitiveTopology::LineStrip,
            PrimitiveTopology::TriangleStrip,
        ])
    } else {
        PrimitiveTopology::TriangleList
    };
    let (v, mut idx) = match kind {
        MeshKind::Floor => floor_geometry(r),
        MeshKind::Box => box_geometry(r),
        _ => soup_geometry(r),
    };
    let usage = *r.pick(&[RenderAssetUsages::all(), RenderAssetUsages::MAIN_WORLD]);
    let mut m = Mesh::new(topo, usage);
    let n = v.len();
    let odd = if kind == MeshKind::Odd { r.below(4) } else { 9 };
    if odd != 0 {
        m.insert_attribute(Mesh::ATTRIBUTE_POSITION, v);
    }
    if r.pct(60) {
        m.insert_attribute(Mesh::ATTRIBUTE_NORMAL, f3(r, n));
    }
    if r.pct(50) {
        m.insert_attribute(Mesh::ATTRIBUTE_UV_0, f2(r, n));
    }
    if r.pct(30) {
        m.insert_attribute(Mesh::ATTRIBUTE_UV_1, f2(r, n));
    }
    if r.pct(30) {
        m.insert_attribute(Mesh::ATTRIBUTE_TANGENT, f4(r, n));
    }
    if r.pct(30) {
        m.insert_attribute(Mesh::ATTRIBUTE_COLOR, f4(r, n));
    }
    if r.pct(20) {
        m.insert_attribute(Mesh::ATTRIBUTE_JOINT_WEIGHT, f4(r, n));
    }
    if r.pct(20) {
        let j = (0..n)
            .map(|_| [r.seed() as u16, r.seed() as u16, r.seed() as u16, 3])
            .collect::<Vec<_>>();
        m.insert_attribute(
            Mesh::ATTRIBUTE_JOINT_INDEX,
            VertexAttributeValues::Uint16x4(j),
        );
    }
    if r.pct(10) {
        m.insert_attribute(CUSTOM, f2(r, n));
    }
    let indexed = match kind {
        MeshKind::NotIndexed => false,
        MeshKind::OtherTopology => r.bool(),
        _ => true,
    };
    if indexed {
        match odd {
            1 => {
                idx.pop();
            }
            2 => idx.clear(),
            3 => {
                // A vertex that is not there.
                let k = r.below(idx.len() as u64) as usize;
                idx[k] = n as u32 + r.below(3) as u32;
            }
            _ => {}
        }
        if r.bool() {
            m.insert_indices(Indices::U32(idx));
        } else {
            m.insert_indices(Indices::U16(idx.into_iter().map(|i| i as u16).collect()));
        }
    }
    m
}

pub fn image(r: &mut Rng) -> Image {
    let format = *r.pick(&[
        TextureFormat::R8Unorm,
        TextureFormat::Rgba8Unorm,
        TextureFormat::Rgba8UnormSrgb,
        TextureFormat::Rgba16Float,
        TextureFormat::Bgra8UnormSrgb,
        TextureFormat::R16Float,
        TextureFormat::Rg8Snorm,
        TextureFormat::Rgba32Float,
        TextureFormat::R32Uint,
        TextureFormat::Rgb10a2Unorm,
        TextureFormat::Bc7RgbaUnormSrgb,
        TextureFormat::Etc2Rgb8Unorm,
        TextureFormat::Astc { block: AstcBlock::B6x5, channel: AstcChannel::UnormSrgb },
    ]);
    let px = match format {
        TextureFormat::R8Unorm => 1,
        TextureFormat::Rgba16Float => 8,
        TextureFormat::Rgba32Float => 16,
        _ => 4,
    };
    let size = Extent3d {
        width: r.range(1, 5) as u32,
        height: r.range(1, 5) as u32,
        depth_or_array_layers: if r.pct(20) { r.range(2, 6) as u32 } else { 1 },
    };
    let len = size.width * size.height * size.depth_or_array_layers * px;
    let fm = |r: &mut Rng| *r.pick(&[ImageFilterMode::Nearest, ImageFilterMode::Linear]);
    let am = |r: &mut Rng| {
        *r.pick(&[
            ImageAddressMode::ClampToEdge,
            ImageAddressMode::Repeat,
            ImageAddressMode::MirrorRepeat,
            ImageAddressMode::ClampToBorder,
        ])
    };
    let opt = |r: &mut Rng, hi: i64| r.bool().then(|| r.range(1, hi) as u32);
    let sampler = if r.bool() {
        ImageSampler::Default
    } else {
        ImageSampler::Descriptor(ImageSamplerDescriptor {
            label: None,
            address_mode_u: am(r),
            address_mode_v: am(r),
            address_mode_w: am(r),
            mag_filter: fm(r),
            min_filter: fm(r),
            mipmap_filter: fm(r),
            lod_min_clamp: r.f(0.0, 2.0),
            lod_max_clamp: r.f(2.0, 32.0),
            compare: r.pct(30).then(|| {
                *r.pick(&[
                    ImageCompareFunction::Less,
                    ImageCompareFunction::Always,
                    ImageCompareFunction::GreaterEqual,
                    ImageCompareFunction::Never,
                    ImageCompareFunction::Equal,
                    ImageCompareFunction::LessEqual,
                    ImageCompareFunction::Greater,
                    ImageCompareFunction::NotEqual,
                ])
            }),
            anisotropy_clamp: r.range(1, 16) as u16,
            border_color: r.pct(30).then(|| {
                *r.pick(&[
                    ImageSamplerBorderColor::OpaqueBlack,
                    ImageSamplerBorderColor::TransparentBlack,
                    ImageSamplerBorderColor::OpaqueWhite,
                    ImageSamplerBorderColor::Zero,
                ])
            }),
        })
    };
    let view = r.pct(40).then(|| TextureViewDescriptor {
        label: r.bool().then_some("view"),
        format: r.bool().then_some(format),
        dimension: r.bool().then(|| {
            *r.pick(&[
                TextureViewDimension::D2,
                TextureViewDimension::D2Array,
                TextureViewDimension::Cube,
                TextureViewDimension::CubeArray,
                TextureViewDimension::D3,
            ])
        }),
        usage: r.bool().then_some(TextureUsages::TEXTURE_BINDING),
        aspect: *r.pick(&[TextureAspect::All, TextureAspect::DepthOnly, TextureAspect::StencilOnly]),
        base_mip_level: r.range(0, 3) as u32,
        mip_level_count: opt(r, 4),
        base_array_layer: r.range(0, 3) as u32,
        array_layer_count: opt(r, 6),
    });
    Image {
        data: (!r.pct(5)).then(|| (0..len).map(|_| r.next() as u8).collect()),
        texture_descriptor: TextureDescriptor {
            label: r.bool().then_some("image"),
            size,
            mip_level_count: r.range(1, 3) as u32,
            sample_count: *r.pick(&[1, 4]),
            dimension: *r.pick(&[TextureDimension::D2, TextureDimension::D2, TextureDimension::D3, TextureDimension::D1]),
            format,
            usage: *r.pick(&[
                TextureUsages::TEXTURE_BINDING | TextureUsages::COPY_DST,
                TextureUsages::TEXTURE_BINDING,
                TextureUsages::all(),
            ]),
            view_formats: &[],
        },
        sampler,
        texture_view_descriptor: view,
        asset_usage: *r.pick(&[RenderAssetUsages::all(), RenderAssetUsages::MAIN_WORLD]),
    }
}

fn color(r: &mut Rng) -> Color {
    let (a, b, c, d) = (r.f(0.0, 1.0), r.f(0.0, 1.0), r.f(0.0, 1.0), r.f(0.0, 1.0));
    match r.below(7) {
        0 => Color::srgba(a, b, c, d),
        1 => Color::linear_rgba(a, b, c, d),
        2 => Color::hsla(a * 360.0, b, c, d),
        3 => Color::oklcha(a, b, c * 360.0, d),
        4 => Color::hwba(a * 360.0, b * 0.5, c * 0.5, d),
        5 => Color::laba(a, b, c, d),
        _ => Color::xyza(a, b, c, d),
    }
}

fn uv(r: &mut Rng) -> UvChannel {
    if r.pct(40) { UvChannel::Uv1 } else { UvChannel::Uv0 }
}

pub fn material(r: &mut Rng, images: &[Handle<Image>], tex_pct: u64) -> StandardMaterial {
    let tex = |r: &mut Rng| -> Option<Handle<Image>> {
        (!images.is_empty() && r.pct(tex_pct)).then(|| r.pick(images).clone())
    };
    // Now and then far outside of what is usual.
    let f = |r: &mut Rng| match r.below(40) {
        0 => *r.pick(&[f32::INFINITY, f32::MAX, -1.0, 0.0, 1.0, 1e-40]),
        1 => r.f(-100.0, 5000.0),
        _ => r.f(0.0, 1.0),
    };
    if r.pct(15) {
        // As most materials are: default, except for a few things.
        return StandardMaterial {
            base_color: color(r),
            base_color_texture: tex(r),
            normal_map_texture: tex(r),
            occlusion_texture: tex(r),
            perceptual_roughness: f(r),
            ..Default::default()
        };
    }
    StandardMaterial {
        base_color: color(r),
        base_color_channel: uv(r),
        base_color_texture: tex(r),
        emissive: LinearRgba::new(f(r), f(r), f(r), f(r)),
        emissive_exposure_weight: f(r),
        emissive_channel: uv(r),
        emissive_texture: tex(r),
        perceptual_roughness: f(r),
        metallic: f(r),
        metallic_roughness_channel: uv(r),
        metallic_roughness_texture: tex(r),
        reflectance: f(r),
        specular_tint: color(r),
        diffuse_transmission: f(r),
        diffuse_transmission_channel: uv(r),
        diffuse_transmission_texture: tex(r),
        specular_transmission: f(r),
        specular_transmission_channel: uv(r),
        specular_transmission_texture: tex(r),
        thickness: f(r),
        thickness_channel: uv(r),
        thickness_texture: tex(r),
        ior: f(r),
        attenuation_distance: f(r),
        attenuation_color: color(r),
        normal_map_channel: uv(r),
        normal_map_texture: tex(r),
        flip_normal_map_y: r.bool(),
        occlusion_channel: uv(r),
        occlusion_texture: tex(r),
        specular_channel: uv(r),
        specular_texture: tex(r),
        specular_tint_channel: uv(r),
        specular_tint_texture: tex(r),
        clearcoat: f(r),
        clearcoat_channel: uv(r),
        clearcoat_texture: tex(r),
        clearcoat_perceptual_roughness: f(r),
        clearcoat_roughness_channel: uv(r),
        clearcoat_roughness_texture: tex(r),
        clearcoat_normal_channel: uv(r),
        clearcoat_normal_texture: tex(r),
        anisotropy_strength: f(r),
        anisotropy_rotation: f(r),
        anisotropy_channel: uv(r),
        anisotropy_texture: tex(r),
        double_sided: r.bool(),
        cull_mode: *r.pick(&[None, Some(Face::Front), Some(Face::Back)]),
        unlit: r.bool(),
        fog_enabled: r.bool(),
        alpha_mode: match r.below(7) {
            0 => AlphaMode::Opaque,
            1 => AlphaMode::Mask(f(r)),
            2 => AlphaMode::Blend,
            3 => AlphaMode::Premultiplied,
            4 => AlphaMode::AlphaToCoverage,
            5 => AlphaMode::Add,
            _ => AlphaMode::Multiply,
        },
        depth_bias: f(r),
        depth_map: tex(r),
        parallax_depth_scale: f(r),
        parallax_mapping_method: if r.bool() {
            ParallaxMappingMethod::Occlusion
        } else {
            ParallaxMappingMethod::Relief {
                max_steps: r.range(1, 9) as u32,
            }
        },
        max_parallax_layer_count: f(r),
        lightmap_exposure: f(r),
        opaque_render_method: *r.pick(&[
            OpaqueRendererMethod::Forward,
            OpaqueRendererMethod::Deferred,
            OpaqueRendererMethod::Auto,
        ]),
        deferred_lighting_pass_id: r.range(0, 9) as u8,
        uv_transform: Affine2::from_cols_array(&[
            f(r),
            f(r),
            f(r),
            f(r),
            r.f(-1.0, 1.0),
            r.f(-1.0, 1.0),
        ]),
    }
}

/// How transforms are made.
#[derive(Copy, Clone, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub enum TransformMode {
    /// Only what float arithmetic represents without rounding.
    Exact,
    /// Any rotation, uniform scale.
    Free,
    /// Also non-uniform, negative and zero scales (and so shear under a parent).
    Wild,
}

/// More floors above one another than there can be.
pub fn tower(r: &mut Rng) -> (Vec<[f32; 3]>, Vec<u32>) {
    let (mut v, mut t) = (Vec::new(), Vec::new());
    let floors = *r.pick(&[61, 62, 63, 64, 65, 80, 254, 255, 256, 257, 300]);
    let gap = *r.pick(&[0.35, 1.0, 2.3, 2.3, 3.0, 3.0]);
    let s = r.f(1.5, 4.0);
    for k in 0..floors {
        let y = k as f32 * gap;
        v.extend([[0., y, 0.], [0., y, s], [s, y, s], [s, y, 0.]]);
        t.extend([0, 1, 2, 0, 2, 3].map(|c| c + k * 4));
    }
    (v, t)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Odd {
    /// Large numbers.
    Large,
    /// And such that are none.
    Any,
    /// And the geometry is all there is.
    Whole,
}

/// Makes the vertices of some geometry hard to build from. At most one axis of the ground plane gets
/// long, so that there are not more columns than fit into memory. Whole geometry is also moved far
/// away, which only works on its own.
pub fn make_odd(r: &mut Rng, v: &mut [[f32; 3]], level: Odd) {
    if v.is_empty() {
        return;
    }
    const ODD: [f32; 7] =
        [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, 1e30, 1e10, -1e10];
    let kind = match level {
        Odd::Large => r.below(3),
        Odd::Any => r.below(5),
        Odd::Whole => r.below(9),
    };
    match kind {
        3 | 4 => {
            // Single vertices.
            let axis = *r.pick(&[0, 1, 1]);
            let odd = *r.pick(&ODD);
            for _ in 0..r.range(1, 3) {
                let k = r.below(v.len() as u64) as usize;
                v[k][axis] = odd;
            }
        }
        0 => {
            // One far away.
            let k = r.below(v.len() as u64) as usize;
            // Long, or too long.
            let far = if r.bool() { r.f(85_000.0, 95_000.0) } else { r.f(40.0, 150.0) };
            v[k][0] += *r.pick(&[-1.0, 1.0]) * far;
        }
        1 => {
            // All higher or lower than the rest.
            let d = *r.pick(&[-1.0, 1.0]) * r.f(500.0, 80_000.0);
            v.iter_mut().for_each(|v| v[1] += d);
        }
        2 => {
            let f = *r.pick(&[1e3, 1e5]);
            v.iter_mut().for_each(|v| v[1] *= f);
        }
        5 => {
            let odd = *r.pick(&ODD);
            v.iter_mut().for_each(|v| *v = [odd; 3]);
        }
        6 | 7 => {
            // So far that vertices get rounded, but not to something too large to build.
            let far = *r.pick(&[1e4, 1e6, 1e7, 1e8]);
            let d = [0; 3].map(|_| *r.pick(&[-1.0, 1.0]) * r.f(0.5, 1.0) * far);
            v.iter_mut().for_each(|v| (0..3).for_each(|k| v[k] += d[k]));
        }
        _ => {
            let f = *r.pick(&[0.0, 1e-6, 1e-3, 0.02]);
            v.iter_mut().for_each(|v| v.iter_mut().for_each(|v| *v *= f));
        }
    }
}

pub fn transform(r: &mut Rng, mode: TransformMode) -> Transform {
    let t = Vec3::new(grid(r, -6, 6), grid(r, -1, 2), grid(r, -6, 6));
    match mode {
        TransformMode::Exact => Transform {
            translation: t,
            rotation: *r.pick(&[
                Quat::IDENTITY,
                Quat::from_xyzw(0.0, 1.0, 0.0, 0.0),
                Quat::IDENTITY,
            ]),
            scale: Vec3::splat(*r.pick(&[1.0, 1.0, 0.5, 2.0])),
        },
        TransformMode::Free | TransformMode::Wild => {
            let rotation = match r.below(3) {
                0 => Quat::IDENTITY,
                1 => Quat::from_rotation_y(r.f(-3.0, 3.0)),
                _ => Quat::from_euler(EulerRot::YXZ, r.f(-3.0, 3.0), r.f(-0.3, 0.3), r.f(-0.3, 0.3)),
            };
            let scale = if mode == TransformMode::Free {
                Vec3::splat(*r.pick(&[1.0, 0.5, 1.25, 1.75]))
            } else {
                match r.below(6) {
                    0 | 1 => Vec3::new(r.f(0.4, 1.8), r.f(0.4, 1.8), r.f(0.4, 1.8)),
                    2 => Vec3::new(-1.0, 1.0, r.f(0.4, 1.8)),
                    3 => Vec3::new(1.0, 0.0, 1.0),
                    _ => Vec3::ONE,
                }
            };
            Transform {
                translation: t,
                rotation,
                scale,
            }
        }
    }
}
