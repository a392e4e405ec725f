// Render passes and framebuffers of a pass that draws into attachments
#include "pipes.hpp"
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
using namespace h;
namespace
{
	struct Target { crg::ImageViewIdArray views; bool colour{}, in{}, out{}; uint32_t clear{}; };
	uint32_t texels( uint32_t extent, uint32_t level ){ auto r = extent >> level; return r ? r : 1u; }
}
CASE( render_passes, 500 )
{
	{
	Dev dev;
	crg::ResourceHandler handler;
	crg::ContextResourcesCache cache{ handler, dev.ctx };
	{
	crg::FrameGraph g{ handler, "g" };
	dev.ctx.separateDepthStencilLayouts = rng.flip();
	uint32_t inst = rng.range( 1, 3 ), index{}, initialised{}, drawn{};
	auto contents = rng.flip() ? VK_SUBPASS_CONTENTS_INLINE : VK_SUBPASS_CONTENTS_SECONDARY_COMMAND_BUFFERS;
	VkExtent2D size{ rng.flip() ? 0u : uint32_t( rng.range( 1, 200 ) ), rng.flip() ? 0u : uint32_t( rng.range( 1, 200 ) ) };
	std::vector< Target > targets;
	std::vector< std::pair< crg::ImageViewId, crg::LayoutState > > during;     // states seen while recording
	crg::RunnablePass * pass{};
	auto & p = g.createPass( "p", [&]( crg::FramePass const & f, crg::GraphContext & c, crg::RunnableGraph & gr ) -> crg::RunnablePassPtr
	{
		crg::RenderPass::Callbacks cbs{ [&initialised]( uint32_t i ){ ++initialised; rec( "user:init" )( "index", i ); }
			, crg::RunnablePass::RecordCallback( [&]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t i )
				{
					++drawn; rec( "user:record" )( "cb", H( cb ) )( "index", i );
					during.clear();
					for ( auto & t : targets ) { auto v = t.views[t.views.size() == 1 ? 0 : i]; during.emplace_back( v, rc.getLayoutState( v ) ); }
				} )
			, crg::RenderPass::GetSubpassContentsCallback( [contents](){ return contents; } )
			, crg::RunnablePass::GetPassIndexCallback( [&index](){ return index; } )
			, crg::RunnablePass::IsEnabledCallback( [](){ return true; } ) };
		auto res = std::make_unique< crg::RenderPass >( f, c, gr, std::move( cbs ), size, crg::ru::Config{ inst } );
		pass = res.get();
		return res;
	} );
	uint32_t colours = rng.below( 4 ); bool depth = colours == 0 || rng.flip();
	uint32_t order = depth ? rng.below( colours + 1 ) : ~0u;
	uint32_t layers = rng.chance( 1, 3 ) ? rng.range( 2, 3 ) : 1u;
	uint32_t counter{};
	auto views = [&]( VkFormat f, uint32_t nLayers )
	{
		crg::ImageViewIdArray r;
		uint32_t many = rng.flip() ? 1u : inst;
		for ( uint32_t j = 0; j < many; ++j )
		{
			auto n = std::to_string( counter++ );
			VkExtent3D e{ uint32_t( rng.range( 1, 90 ) ), uint32_t( rng.range( 1, 90 ) ), 1u };
			crg::ImageData d{ "i" + n, 0, VK_IMAGE_TYPE_2D, f, e, VK_IMAGE_USAGE_SAMPLED_BIT, 4, nLayers + 1 };
			d.info.samples = rng.flip() ? VK_SAMPLE_COUNT_1_BIT : VK_SAMPLE_COUNT_4_BIT;
			r.push_back( view2D( g, "v" + n, g.createImage( d ), rng.below( 4 ), 1, rng.below( 2 ), nLayers ) );
		}
		return r;
	};
	for ( uint32_t k = 0; k <= colours; ++k )
	{
		if ( k == order )
		{
			Target t; t.views = views( rng.flip() ? VK_FORMAT_D32_SFLOAT : VK_FORMAT_D24_UNORM_S8_UINT, rng.flip() ? layers : 1u ); t.clear = rng.range( 1, 99 );
			VkClearValue cv{}; cv.color.uint32[0] = t.clear;
			auto what = rng.below( 3 );
			t.in = what != 1; t.out = what != 0;
			if ( what == 0 ) { p.addInputDepthView( t.views ); t.clear = 0; }
			else if ( what == 1 ) p.addOutputDepthView( t.views, cv );
			else { p.addInOutDepthView( t.views ); t.clear = 0; }
			targets.insert( targets.begin(), t );          // a depth target comes first
		}
		if ( k == colours ) break;
		Target t; t.colour = true; t.views = views( rng.flip() ? VK_FORMAT_R8G8B8A8_UNORM : VK_FORMAT_R32_SFLOAT, rng.flip() ? layers : 1u ); t.clear = rng.range( 1, 99 );
		VkClearValue cv{}; cv.color.uint32[0] = t.clear;
		auto what = rng.below( 3 );
		t.in = what != 1; t.out = what != 0;
		if ( what == 0 ) { p.addInputColourView( t.views ); t.clear = 0; }
		else if ( what == 1 ) p.addOutputColourView( t.views, cv );
		else { p.addInOutColourView( t.views ); t.clear = 0; }
		targets.push_back( t );
	}
	if ( rng.flip() ) p.addSampledView( view2D( g, "sv", img2D( g, "si", VK_FORMAT_R8G8B8A8_UNORM, 1, 1, { 500, 500, 1 } ) ), 0 );
	cx.note( "instances", inst ); cx.note( "targets", targets.size() ); cx.note( "w", size.width ); cx.note( "h", size.height );
	// states given from outside and asked for outside
	VkImageLayout some[]{ VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL };
	std::map< uint32_t, crg::LayoutState > outputs;
	crg::RecordContext rc{ cache };
	for ( auto & t : targets )
		for ( auto & v : t.views )
		{
			if ( rng.flip() ) { outputs[v.id] = crg::makeLayoutState( some[rng.below( 4 )] ); g.addOutput( v, outputs[v.id] ); }
			if ( t.in && rng.chance( 1, 3 ) ) g.addInput( v, crg::makeLayoutState( some[rng.below( 4 )] ) );
			else if ( t.in ) rc.setLayoutState( v, crg::makeLayoutState( some[rng.below( 4 )] ) );
		}
	auto rg = g.compile( dev.ctx );
	auto cb = VkCommandBuffer( 0x7777 );
	struct Was { uint64_t rp{}, fb{}; crg::PipelineState prev, next; std::vector< crg::LayoutState > in, out; };
	std::map< uint32_t, Was > was;
	for ( uint32_t round = rng.range( 1, 5 ); round > 0; --round )
	{
		index = rng.below( inst );
		cx.note( "index", index );
		std::vector< crg::ImageViewId > vs;
		for ( auto & t : targets ) vs.push_back( t.views[t.views.size() == 1 ? 0 : index] );
		// something else may have used a target, a neighbour may have changed
		if ( rng.chance( 1, 4 ) ) { auto k = rng.below( vs.size() ); rc.setLayoutState( vs[k], crg::makeLayoutState( some[rng.below( 4 )] ) ); }
		else if ( was.count( index ) && rng.flip() )
			for ( size_t k = 0; k < vs.size(); ++k ) rc.setLayoutState( vs[k], was[index].in[k] );
		if ( rng.chance( 1, 3 ) ) rc.setNextPipelineState( rng.flip() ? crg::PipelineState{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT } : crg::PipelineState{ VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT }, {} );
		auto prev = rc.getPrevPipelineState(), next = rc.getNextPipelineState();
		std::vector< crg::LayoutState > before, nexts;
		for ( auto & v : vs ) { before.push_back( rc.getLayoutState( v ) ); }
		for ( auto & v : vs ) nexts.push_back( outputs.count( v.id ) ? outputs[v.id] : pass->getLayoutState( v ) );
		bool keep = was.count( index ) && was[index].prev.access == prev.access && was[index].prev.pipelineStage == prev.pipelineStage && was[index].next.access == next.access && was[index].next.pipelineStage == next.pipelineStage;
		for ( size_t k = 0; keep && k < vs.size(); ++k )
			keep = before[k].layout == VK_IMAGE_LAYOUT_UNDEFINED
				|| ( before[k].layout == was[index].in[k].layout && before[k].state.access == was[index].in[k].state.access && ( before[k].state.access == 0 || before[k].state.pipelineStage == was[index].in[k].state.pipelineStage ) );
		auto from = world().trace.size();
		auto seen = initialised;
		pass->recordCurrentInto( rc, cb );
		std::vector< Rec > t{ world().trace.begin() + ptrdiff_t( from ), world().trace.end() };
		auto mk = only( t, { "vkCreateRenderPass" } ), mf = only( t, { "vkCreateFramebuffer" } );
		auto dr = only( t, { "vkDestroyRenderPass" } ), df = only( t, { "vkDestroyFramebuffer" } );
		cx.eq( mk.size(), size_t( keep ? 0 : 1 ), "render passes made" );
		cx.eq( mf.size(), size_t( keep ? 0 : 1 ), "framebuffers made" );
		cx.eq( initialised - seen, uint32_t( keep ? 0 : 1 ), "the pass is told its render pass is new" );
		if ( !keep )
		{
			cx.eq( dr.size(), size_t( was.count( index ) ), "the former render pass goes" );
			cx.eq( df.size(), size_t( was.count( index ) ), "the former framebuffer goes" );
			if ( was.count( index ) ) { cx.eq( val( dr[0], "handle" ), was[index].rp, "render pass destroyed" ); cx.eq( val( df[0], "handle" ), was[index].fb, "framebuffer destroyed" ); }
			auto & w = was[index];
			w.prev = prev; w.next = next; w.in.clear(); w.out.clear();
			w.rp = val( mk[0], "handle" ); w.fb = val( mf[0], "handle" );
			Rec r{ "vkCreateRenderPass", {} };
			r( "atts", vs.size() )( "subs", 1 )( "deps", 2 );
			uint32_t width = size.width, height = size.height, deep = 1;
			std::vector< size_t > cs; size_t ds = ~size_t( 0 );
			for ( size_t k = 0; k < vs.size(); ++k )
			{
				auto & d = *vs[k].data; auto & im = *d.image.data;
				auto q = "a" + std::to_string( k );
				auto initial = targets[k].in ? ( before[k].layout ? before[k] : g.getInputLayoutState( d.image, d.info.viewType, d.info.subresourceRange ) ) : crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED );
				w.in.push_back( initial ); w.out.push_back( nexts[k] );
				bool stencil = targets[k].colour ? false : d.info.format == VK_FORMAT_D24_UNORM_S8_UINT; ( void )stencil;
				r( q + ".format", d.info.format )( q + ".samples", im.info.samples )
					( q + ".load", initial.layout == VK_IMAGE_LAYOUT_UNDEFINED ? VK_ATTACHMENT_LOAD_OP_CLEAR : VK_ATTACHMENT_LOAD_OP_LOAD )
					( q + ".store", targets[k].out ? VK_ATTACHMENT_STORE_OP_STORE : VK_ATTACHMENT_STORE_OP_DONT_CARE )
					( q + ".sload", val( mk[0], q + ".sload" ) )( q + ".sstore", val( mk[0], q + ".sstore" ) )
					( q + ".init", initial.layout )( q + ".final", nexts[k].layout );
				cx.eq( val( mk[0], q + ".sload" ), uint64_t( VK_ATTACHMENT_LOAD_OP_DONT_CARE ), "stencil is not loaded" );
				cx.eq( val( mk[0], q + ".sstore" ), uint64_t( VK_ATTACHMENT_STORE_OP_DONT_CARE ), "stencil is not stored" );
				if ( targets[k].colour ) cs.push_back( k ); else ds = k;
				auto lv = d.info.subresourceRange.baseMipLevel;
				width = std::max( width, texels( im.info.extent.width, lv ) ); height = std::max( height, texels( im.info.extent.height, lv ) );
				deep = std::max( deep, d.info.subresourceRange.layerCount );
		}
			r( "sp0.bind", VK_PIPELINE_BIND_POINT_GRAPHICS )( "sp0.colours", cs.size() );
			for ( size_t k = 0; k < cs.size(); ++k ) r( "sp0.c" + std::to_string( k ) + ".att", cs[k] )( "sp0.c" + std::to_string( k ) + ".layout", VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL );
			r( "sp0.hasDs", ds != ~size_t( 0 ) );
			if ( ds != ~size_t( 0 ) )
			{
				auto sep = dev.ctx.separateDepthStencilLayouts;
				r( "sp0.ds.att", ds )( "sp0.ds.layout", targets[ds].out ? ( sep ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL )
					: ( sep ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL ) );
		}
			r( "sp0.inputs", 0 )( "sp0.resolve", 0 );
			uint64_t own = VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT;
			r( "d0.src", VK_SUBPASS_EXTERNAL )( "d0.dst", 0 )( "d0.srcStage", prev.pipelineStage )( "d0.dstStage", VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT )( "d0.srcAccess", prev.access )( "d0.dstAccess", own )( "d0.flags", VK_DEPENDENCY_BY_REGION_BIT );
			r( "d1.src", 0 )( "d1.dst", VK_SUBPASS_EXTERNAL )( "d1.srcStage", VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT )( "d1.dstStage", next.pipelineStage )( "d1.srcAccess", own )( "d1.dstAccess", next.access )( "d1.flags", VK_DEPENDENCY_BY_REGION_BIT );
			r( "handle", w.rp );
			cx.eq( mk[0], r, "the render pass" );
			Rec f{ "vkCreateFramebuffer", {} };
			f( "renderPass", w.rp )( "n", vs.size() )( "w", width )( "h", height )( "layers", deep );
			for ( size_t k = 0; k < vs.size(); ++k ) f( "v" + std::to_string( k ), H( cache.createImageView( vs[k] ) ) );
			f( "handle", w.fb );
			cx.eq( mf[0], f, "the framebuffer" );
		}
		// what is recorded
		auto & w = was[index];
		auto c = only( t, { "user:init", "vkCmdBeginRenderPass", "user:record", "vkCmdEndRenderPass" } );
		std::vector< Rec > want;
		if ( !keep ) want.push_back( Rec{ "user:init", {} }( "index", index ) );
		Rec b{ "vkCmdBeginRenderPass", {} };
		uint32_t width = size.width, height = size.height;
		for ( auto & v : vs ) { auto lv = v.data->info.subresourceRange.baseMipLevel; auto & e = v.data->image.data->info.extent; width = std::max( width, texels( e.width, lv ) ); height = std::max( height, texels( e.height, lv ) ); }
		b( "cb", H( cb ) )( "renderPass", w.rp )( "framebuffer", w.fb )( "x", 0 )( "y", 0 )( "w", width )( "h", height )( "contents", contents )( "clears", vs.size() );
		for ( size_t k = 0; k < vs.size(); ++k ) b( "clear" + std::to_string( k ), targets[k].clear );
		want.push_back( b );
		want.push_back( Rec{ "user:record", {} }( "cb", H( cb ) )( "index", index ) );
		want.push_back( Rec{ "vkCmdEndRenderPass", {} }( "cb", H( cb ) ) );
		cx.eq( c, want, "what is recorded" );
		for ( size_t k = 0; k < vs.size(); ++k )
		{
			bool again = false;
			cx.eq( during[k].second.layout, w.in[k].layout, "layout inside the render pass" );
			auto now = rc.getLayoutState( vs[k] );
			cx.eq( now.layout, w.out[k].layout, "layout after the render pass" );
			if ( !again ) cx.eq( now.state.access, w.out[k].state.access, "access after the render pass" );
		}
	}
	rg.reset();
	dev.ctx.delQueue.clear( dev.ctx );
	}
	cx.eq( countAlive( "RenderPass" ), size_t( 0 ), "render passes left" );
	cx.eq( countAlive( "Framebuffer" ), size_t( 0 ), "framebuffers left" );
	}
	cx.eq( world().errors.size(), size_t( 0 ), "misuses of the device" );
}
