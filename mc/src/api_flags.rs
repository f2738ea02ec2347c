// generated by tools/gen_api.py: every flag accessor
#![allow(clippy::all)]
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use crate::flags::Flags;
pub fn all(v: &mut dyn FnMut(&dyn Flags)) {
    v(&crate::flags::Host::<Face3D> { name: "Face3D", place: "entity:Face3D", fs: vec![
        ("is_first_edge_invisible", |o| o.is_first_edge_invisible(), |o, b| o.set_is_first_edge_invisible(b)),
        ("is_second_edge_invisible", |o| o.is_second_edge_invisible(), |o, b| o.set_is_second_edge_invisible(b)),
        ("is_third_edge_invisible", |o| o.is_third_edge_invisible(), |o, b| o.set_is_third_edge_invisible(b)),
        ("is_fourth_edge_invisible", |o| o.is_fourth_edge_invisible(), |o, b| o.set_is_fourth_edge_invisible(b)),
    ] });
    v(&crate::flags::Host::<AttributeDefinition> { name: "AttributeDefinition", place: "entity:AttributeDefinition", fs: vec![
        ("is_text_backwards", |o| o.is_text_backwards(), |o, b| o.set_is_text_backwards(b)),
        ("is_text_upside_down", |o| o.is_text_upside_down(), |o, b| o.set_is_text_upside_down(b)),
        ("is_invisible", |o| o.is_invisible(), |o, b| o.set_is_invisible(b)),
        ("is_constant", |o| o.is_constant(), |o, b| o.set_is_constant(b)),
        ("is_input_verification_required", |o| o.is_input_verification_required(), |o, b| o.set_is_input_verification_required(b)),
        ("is_attribute_present", |o| o.is_attribute_present(), |o, b| o.set_is_attribute_present(b)),
    ] });
    v(&crate::flags::Host::<Attribute> { name: "Attribute", place: "entity:Attribute", fs: vec![
        ("is_invisible", |o| o.is_invisible(), |o, b| o.set_is_invisible(b)),
        ("is_constant", |o| o.is_constant(), |o, b| o.set_is_constant(b)),
        ("is_input_verification_required", |o| o.is_input_verification_required(), |o, b| o.set_is_input_verification_required(b)),
        ("is_attribute_present", |o| o.is_attribute_present(), |o, b| o.set_is_attribute_present(b)),
        ("is_text_backwards", |o| o.is_text_backwards(), |o, b| o.set_is_text_backwards(b)),
        ("is_text_upside_down", |o| o.is_text_upside_down(), |o, b| o.set_is_text_upside_down(b)),
    ] });
    v(&crate::flags::Host::<Image> { name: "Image", place: "entity:Image", fs: vec![
        ("show_image", |o| o.show_image(), |o, b| o.set_show_image(b)),
        ("show_image_when_not_alligned", |o| o.show_image_when_not_alligned(), |o, b| o.set_show_image_when_not_alligned(b)),
        ("use_clipping_boundary", |o| o.use_clipping_boundary(), |o, b| o.set_use_clipping_boundary(b)),
        ("use_transparency", |o| o.use_transparency(), |o, b| o.set_use_transparency(b)),
    ] });
    v(&crate::flags::Host::<LwPolyline> { name: "LwPolyline", place: "entity:LwPolyline", fs: vec![
        ("is_closed", |o| o.is_closed(), |o, b| o.set_is_closed(b)),
        ("is_pline_gen", |o| o.is_pline_gen(), |o, b| o.set_is_pline_gen(b)),
    ] });
    v(&crate::flags::Host::<MLine> { name: "MLine", place: "entity:MLine", fs: vec![
        ("has_at_least_one_vertex", |o| o.has_at_least_one_vertex(), |o, b| o.set_has_at_least_one_vertex(b)),
        ("is_closed", |o| o.is_closed(), |o, b| o.set_is_closed(b)),
        ("suppress_start_caps", |o| o.suppress_start_caps(), |o, b| o.set_suppress_start_caps(b)),
        ("suppress_end_caps", |o| o.suppress_end_caps(), |o, b| o.set_suppress_end_caps(b)),
    ] });
    v(&crate::flags::Host::<Polyline> { name: "Polyline", place: "entity:Polyline", fs: vec![
        ("is_closed", |o| o.is_closed(), |o, b| o.set_is_closed(b)),
        ("curve_fit_vertices_added", |o| o.curve_fit_vertices_added(), |o, b| o.set_curve_fit_vertices_added(b)),
        ("spline_fit_vertices_added", |o| o.spline_fit_vertices_added(), |o, b| o.set_spline_fit_vertices_added(b)),
        ("is_3d_polyline", |o| o.is_3d_polyline(), |o, b| o.set_is_3d_polyline(b)),
        ("is_3d_polygon_mesh", |o| o.is_3d_polygon_mesh(), |o, b| o.set_is_3d_polygon_mesh(b)),
        ("is_polygon_mesh_closed_in_n_direction", |o| o.is_polygon_mesh_closed_in_n_direction(), |o, b| o.set_is_polygon_mesh_closed_in_n_direction(b)),
        ("is_polyface_mesh", |o| o.is_polyface_mesh(), |o, b| o.set_is_polyface_mesh(b)),
        ("is_line_type_pattern_generated_continuously", |o| o.is_line_type_pattern_generated_continuously(), |o, b| o.set_is_line_type_pattern_generated_continuously(b)),
    ] });
    v(&crate::flags::Host::<RText> { name: "RText", place: "entity:RText", fs: vec![
        ("is_expression", |o| o.is_expression(), |o, b| o.set_is_expression(b)),
        ("is_inline_mtext_sequences_enabled", |o| o.is_inline_mtext_sequences_enabled(), |o, b| o.set_is_inline_mtext_sequences_enabled(b)),
    ] });
    v(&crate::flags::Host::<Spline> { name: "Spline", place: "entity:Spline", fs: vec![
        ("is_closed", |o| o.is_closed(), |o, b| o.set_is_closed(b)),
        ("is_periodic", |o| o.is_periodic(), |o, b| o.set_is_periodic(b)),
        ("is_rational", |o| o.is_rational(), |o, b| o.set_is_rational(b)),
        ("is_planar", |o| o.is_planar(), |o, b| o.set_is_planar(b)),
        ("is_linear", |o| o.is_linear(), |o, b| o.set_is_linear(b)),
    ] });
    v(&crate::flags::Host::<Text> { name: "Text", place: "entity:Text", fs: vec![
        ("is_text_backwards", |o| o.is_text_backwards(), |o, b| o.set_is_text_backwards(b)),
        ("is_text_upside_down", |o| o.is_text_upside_down(), |o, b| o.set_is_text_upside_down(b)),
    ] });
    v(&crate::flags::Host::<DgnUnderlay> { name: "DgnUnderlay", place: "entity:DgnUnderlay", fs: vec![
        ("is_clipping_on", |o| o.is_clipping_on(), |o, b| o.set_is_clipping_on(b)),
        ("is_underlay_on", |o| o.is_underlay_on(), |o, b| o.set_is_underlay_on(b)),
        ("is_monochrome", |o| o.is_monochrome(), |o, b| o.set_is_monochrome(b)),
        ("adjust_for_background", |o| o.adjust_for_background(), |o, b| o.set_adjust_for_background(b)),
        ("is_clip_inside_mode", |o| o.is_clip_inside_mode(), |o, b| o.set_is_clip_inside_mode(b)),
    ] });
    v(&crate::flags::Host::<DwfUnderlay> { name: "DwfUnderlay", place: "entity:DwfUnderlay", fs: vec![
        ("is_clipping_on", |o| o.is_clipping_on(), |o, b| o.set_is_clipping_on(b)),
        ("is_underlay_on", |o| o.is_underlay_on(), |o, b| o.set_is_underlay_on(b)),
        ("is_monochrome", |o| o.is_monochrome(), |o, b| o.set_is_monochrome(b)),
        ("adjust_for_background", |o| o.adjust_for_background(), |o, b| o.set_adjust_for_background(b)),
        ("is_clip_inside_mode", |o| o.is_clip_inside_mode(), |o, b| o.set_is_clip_inside_mode(b)),
    ] });
    v(&crate::flags::Host::<PdfUnderlay> { name: "PdfUnderlay", place: "entity:PdfUnderlay", fs: vec![
        ("is_clipping_on", |o| o.is_clipping_on(), |o, b| o.set_is_clipping_on(b)),
        ("is_underlay_on", |o| o.is_underlay_on(), |o, b| o.set_is_underlay_on(b)),
        ("is_monochrome", |o| o.is_monochrome(), |o, b| o.set_is_monochrome(b)),
        ("adjust_for_background", |o| o.adjust_for_background(), |o, b| o.set_adjust_for_background(b)),
        ("is_clip_inside_mode", |o| o.is_clip_inside_mode(), |o, b| o.set_is_clip_inside_mode(b)),
    ] });
    v(&crate::flags::Host::<Vertex> { name: "Vertex", place: "entity:Vertex", fs: vec![
        ("is_extra_created_by_curve_fit", |o| o.is_extra_created_by_curve_fit(), |o, b| o.set_is_extra_created_by_curve_fit(b)),
        ("is_curve_fit_tangent_defined", |o| o.is_curve_fit_tangent_defined(), |o, b| o.set_is_curve_fit_tangent_defined(b)),
        ("is_spline_vertex_created_by_spline_fitting", |o| o.is_spline_vertex_created_by_spline_fitting(), |o, b| o.set_is_spline_vertex_created_by_spline_fitting(b)),
        ("is_spline_frame_control_point", |o| o.is_spline_frame_control_point(), |o, b| o.set_is_spline_frame_control_point(b)),
        ("is_3d_polyline_vertex", |o| o.is_3d_polyline_vertex(), |o, b| o.set_is_3d_polyline_vertex(b)),
        ("is_3d_polygon_mesh", |o| o.is_3d_polygon_mesh(), |o, b| o.set_is_3d_polygon_mesh(b)),
        ("is_polyface_mesh_vertex", |o| o.is_polyface_mesh_vertex(), |o, b| o.set_is_polyface_mesh_vertex(b)),
    ] });
    v(&crate::flags::Host::<Wipeout> { name: "Wipeout", place: "entity:Wipeout", fs: vec![
        ("show_image", |o| o.show_image(), |o, b| o.set_show_image(b)),
        ("show_image_when_not_alligned", |o| o.show_image_when_not_alligned(), |o, b| o.set_show_image_when_not_alligned(b)),
        ("use_clipping_boundary", |o| o.use_clipping_boundary(), |o, b| o.set_use_clipping_boundary(b)),
        ("use_transparency", |o| o.use_transparency(), |o, b| o.set_use_transparency(b)),
    ] });
    v(&crate::flags::Host::<DimensionAssoc> { name: "DimensionAssoc", place: "object:DimensionAssoc", fs: vec![
        ("is_first_point_reference", |o| o.is_first_point_reference(), |o, b| o.set_is_first_point_reference(b)),
        ("is_second_point_reference", |o| o.is_second_point_reference(), |o, b| o.set_is_second_point_reference(b)),
        ("is_third_point_reference", |o| o.is_third_point_reference(), |o, b| o.set_is_third_point_reference(b)),
        ("is_fourth_point_reference", |o| o.is_fourth_point_reference(), |o, b| o.set_is_fourth_point_reference(b)),
    ] });
    v(&crate::flags::Host::<Layout> { name: "Layout", place: "object:Layout", fs: vec![
        ("is_ps_lt_scale", |o| o.is_ps_lt_scale(), |o, b| o.set_is_ps_lt_scale(b)),
        ("is_lim_check", |o| o.is_lim_check(), |o, b| o.set_is_lim_check(b)),
    ] });
    v(&crate::flags::Host::<MLineStyle> { name: "MLineStyle", place: "object:MLineStyle", fs: vec![
        ("fill_on", |o| o.fill_on(), |o, b| o.set_fill_on(b)),
        ("display_miters", |o| o.display_miters(), |o, b| o.set_display_miters(b)),
        ("start_square_end_cap", |o| o.start_square_end_cap(), |o, b| o.set_start_square_end_cap(b)),
        ("start_inner_arcs_cap", |o| o.start_inner_arcs_cap(), |o, b| o.set_start_inner_arcs_cap(b)),
        ("start_round_cap", |o| o.start_round_cap(), |o, b| o.set_start_round_cap(b)),
        ("end_square_cap", |o| o.end_square_cap(), |o, b| o.set_end_square_cap(b)),
        ("end_inner_arcs_cap", |o| o.end_inner_arcs_cap(), |o, b| o.set_end_inner_arcs_cap(b)),
        ("end_round_cap", |o| o.end_round_cap(), |o, b| o.set_end_round_cap(b)),
    ] });
    v(&crate::flags::Host::<PlotSettings> { name: "PlotSettings", place: "object:PlotSettings", fs: vec![
        ("plot_viewport_borders", |o| o.plot_viewport_borders(), |o, b| o.set_plot_viewport_borders(b)),
        ("show_plot_styles", |o| o.show_plot_styles(), |o, b| o.set_show_plot_styles(b)),
        ("plot_centered", |o| o.plot_centered(), |o, b| o.set_plot_centered(b)),
        ("plot_hidden", |o| o.plot_hidden(), |o, b| o.set_plot_hidden(b)),
        ("use_standard_scale", |o| o.use_standard_scale(), |o, b| o.set_use_standard_scale(b)),
        ("plot_plot_styles", |o| o.plot_plot_styles(), |o, b| o.set_plot_plot_styles(b)),
        ("scale_line_weights", |o| o.scale_line_weights(), |o, b| o.set_scale_line_weights(b)),
        ("print_line_weights", |o| o.print_line_weights(), |o, b| o.set_print_line_weights(b)),
        ("draw_viewports_first", |o| o.draw_viewports_first(), |o, b| o.set_draw_viewports_first(b)),
        ("model_type", |o| o.model_type(), |o, b| o.set_model_type(b)),
        ("update_paper", |o| o.update_paper(), |o, b| o.set_update_paper(b)),
        ("zoom_to_paper_on_update", |o| o.zoom_to_paper_on_update(), |o, b| o.set_zoom_to_paper_on_update(b)),
        ("initializing", |o| o.initializing(), |o, b| o.set_initializing(b)),
        ("prev_plot_init", |o| o.prev_plot_init(), |o, b| o.set_prev_plot_init(b)),
    ] });
    v(&crate::flags::Host::<Header> { name: "Header", place: "header", fs: vec![
        ("end_point_snap", |o| o.end_point_snap(), |o, b| o.set_end_point_snap(b)),
        ("mid_point_snap", |o| o.mid_point_snap(), |o, b| o.set_mid_point_snap(b)),
        ("center_snap", |o| o.center_snap(), |o, b| o.set_center_snap(b)),
        ("node_snap", |o| o.node_snap(), |o, b| o.set_node_snap(b)),
        ("quadrant_snap", |o| o.quadrant_snap(), |o, b| o.set_quadrant_snap(b)),
        ("intersection_snap", |o| o.intersection_snap(), |o, b| o.set_intersection_snap(b)),
        ("insertion_snap", |o| o.insertion_snap(), |o, b| o.set_insertion_snap(b)),
        ("perpendicular_snap", |o| o.perpendicular_snap(), |o, b| o.set_perpendicular_snap(b)),
        ("tangent_snap", |o| o.tangent_snap(), |o, b| o.set_tangent_snap(b)),
        ("nearest_snap", |o| o.nearest_snap(), |o, b| o.set_nearest_snap(b)),
        ("apparent_intersection_snap", |o| o.apparent_intersection_snap(), |o, b| o.set_apparent_intersection_snap(b)),
        ("extension_snap", |o| o.extension_snap(), |o, b| o.set_extension_snap(b)),
        ("parallel_snap", |o| o.parallel_snap(), |o, b| o.set_parallel_snap(b)),
        ("sort_objects_for_object_selection", |o| o.sort_objects_for_object_selection(), |o, b| o.set_sort_objects_for_object_selection(b)),
        ("sort_objects_for_object_snap", |o| o.sort_objects_for_object_snap(), |o, b| o.set_sort_objects_for_object_snap(b)),
        ("sort_objects_for_redraw", |o| o.sort_objects_for_redraw(), |o, b| o.set_sort_objects_for_redraw(b)),
        ("sort_objects_for_mslide", |o| o.sort_objects_for_mslide(), |o, b| o.set_sort_objects_for_mslide(b)),
        ("sort_objects_for_regen", |o| o.sort_objects_for_regen(), |o, b| o.set_sort_objects_for_regen(b)),
        ("sort_objects_for_plotting", |o| o.sort_objects_for_plotting(), |o, b| o.set_sort_objects_for_plotting(b)),
        ("sort_objects_for_post_script_output", |o| o.sort_objects_for_post_script_output(), |o, b| o.set_sort_objects_for_post_script_output(b)),
        ("no_twist", |o| o.no_twist(), |o, b| o.set_no_twist(b)),
        ("align_direction", |o| o.align_direction(), |o, b| o.set_align_direction(b)),
        ("simplify", |o| o.simplify(), |o, b| o.set_simplify(b)),
        ("close", |o| o.close(), |o, b| o.set_close(b)),
    ] });
    v(&crate::flags::Host::<Block> { name: "Block", place: "block", fs: vec![
        ("is_anonymous", |o| o.is_anonymous(), |o, b| o.set_is_anonymous(b)),
        ("has_non_consistent_attribute_definitions", |o| o.has_non_consistent_attribute_definitions(), |o, b| o.set_has_non_consistent_attribute_definitions(b)),
        ("is_xref", |o| o.is_xref(), |o, b| o.set_is_xref(b)),
        ("is_xref_overlay", |o| o.is_xref_overlay(), |o, b| o.set_is_xref_overlay(b)),
        ("is_externally_dependent", |o| o.is_externally_dependent(), |o, b| o.set_is_externally_dependent(b)),
        ("is_referenced_external_reference", |o| o.is_referenced_external_reference(), |o, b| o.set_is_referenced_external_reference(b)),
        ("is_resolved_external_reference", |o| o.is_resolved_external_reference(), |o, b| o.set_is_resolved_external_reference(b)),
    ] });
    v(&crate::flags::Host::<Class> { name: "Class", place: "class", fs: vec![
        ("is_erase_allowed", |o| o.is_erase_allowed(), |o, b| o.set_is_erase_allowed(b)),
        ("is_transform_allowed", |o| o.is_transform_allowed(), |o, b| o.set_is_transform_allowed(b)),
        ("is_color_change_allowed", |o| o.is_color_change_allowed(), |o, b| o.set_is_color_change_allowed(b)),
        ("is_layer_change_allowed", |o| o.is_layer_change_allowed(), |o, b| o.set_is_layer_change_allowed(b)),
        ("is_line_type_change_allowed", |o| o.is_line_type_change_allowed(), |o, b| o.set_is_line_type_change_allowed(b)),
        ("is_line_type_scale_change_allowed", |o| o.is_line_type_scale_change_allowed(), |o, b| o.set_is_line_type_scale_change_allowed(b)),
        ("is_visibility_change_allowed", |o| o.is_visibility_change_allowed(), |o, b| o.set_is_visibility_change_allowed(b)),
        ("is_clone_allowed", |o| o.is_clone_allowed(), |o, b| o.set_is_clone_allowed(b)),
        ("is_lineweight_change_allowed", |o| o.is_lineweight_change_allowed(), |o, b| o.set_is_lineweight_change_allowed(b)),
        ("is_plot_style_name_change_allowed", |o| o.is_plot_style_name_change_allowed(), |o, b| o.set_is_plot_style_name_change_allowed(b)),
        ("is_R13_format_proxy", |o| o.is_R13_format_proxy(), |o, b| o.set_is_R13_format_proxy(b)),
    ] });
}
