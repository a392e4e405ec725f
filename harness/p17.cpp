// The transfer commands of the built-in passes and actions
#include "graphs.hpp"
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
using namespace h;
namespace
{
	VkOffset3D anyOff( Rng & r, bool z ){ return { int32_t( r.below( 9 ) ), int32_t( r.below( 9 ) ), z ? int32_t( r.below( 9 ) ) : 0 }; }
	VkExtent3D anyExt( Rng & r ){ return { r.range( 1, 20 ), r.range( 1, 20 ), r.range( 1, 20 ) }; }
	struct V { crg::ImageViewIdArray a; uint32_t at( uint32_t i )const{ return a.size() == 1 ? 0 : i; } };
	V views( crg::FrameGraph & g, Rng & rng, std::string const & n, uint32_t inst, VkFormat f = VK_FORMAT_R8G8B8A8_UNORM )
	{
		V v;
		uint32_t many = rng.flip() ? 1u : inst;
		for ( uint32_t j = 0; j < many; ++j )
		{
			auto m = n + std::to_string( j );
			uint32_t levels = rng.range( 1, 3 ), lays = rng.range( 1, 4 );
			auto i = img2D( g, "i" + m, f, levels, lays );
			uint32_t l = rng.below( levels ), y = rng.below( lays );
			v.a.push_back( view2D( g, "v" + m, i, l, rng.range( 1, levels - l ), y, rng.range( 1, lays - y ) ) );
		}
		return v;
	}
	crg::VkBufferArray buffers( Rng & rng, uint32_t base, uint32_t inst )
	{
		crg::VkBufferArray a;
		uint32_t many = rng.flip() ? 1u : inst;
		for ( uint32_t j = 0; j < many; ++j ) a.push_back( VkBuffer( uint64_t( base + j ) ) );
		return a;
	}
	void sub( Rec & r, std::string const & p, crg::ImageViewId v, uint32_t n = 0 )
	{
		auto & s = v.data->info.subresourceRange;
		layers( r, p, { s.aspectMask, s.baseMipLevel, s.baseArrayLayer, n ? n : s.layerCount } );
	}
	// the device commands of one recording; barriers and the debug blocks left out
	std::vector< Rec > commands( bool barriers )
	{
		std::vector< Rec > r;
		for ( auto & c : cmds() ) if ( c.fn.rfind( "vkCmdCopy", 0 ) == 0 || c.fn.rfind( "vkCmdBlit", 0 ) == 0 || c.fn.rfind( "vkCmdClear", 0 ) == 0 || ( barriers && c.fn.rfind( "vkCmdPipelineBarrier", 0 ) == 0 ) ) r.push_back( c );
		return r;
	}
}
CASE( transfer_passes, 500 )
{
	Dev dev;
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	crg::ContextResourcesCache cache{ handler, dev.ctx };
	uint32_t inst = rng.range( 1, 3 ), index = rng.below( inst ), kind = rng.below( 5 );
	cx.note( "kind", kind ); cx.note( "instances", inst ); cx.note( "index", index );
	crg::ru::Config ru{ inst };
	auto pi = crg::RunnablePass::GetPassIndexCallback( [&index](){ return index; } );
	auto so = anyOff( rng, true ), dof = anyOff( rng, true );
	auto se = anyExt( rng ), de = anyExt( rng );
	VkDeviceSize at0 = rng.below( 50 ), size = rng.range( 1, 100 );
	VkImageLayout fin = rng.pick( { VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL } );
	VkFilter filter = rng.pick( { VK_FILTER_LINEAR, VK_FILTER_NEAREST } );
	crg::RunnablePass * pass{};
	auto keep = [&pass]( auto p ) -> crg::RunnablePassPtr { pass = p.get(); return p; };
	auto & p = g.createPass( "p", [&]( crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
	{
		switch ( kind )
		{
		case 0: return keep( std::make_unique< crg::BufferCopy >( fp, c, rg, at0, size, ru, pi ) );
		case 1: return keep( std::make_unique< crg::BufferToImageCopy >( fp, c, rg, so, se, ru, pi ) );
		case 2: return keep( std::make_unique< crg::ImageToBufferCopy >( fp, c, rg, so, se, ru, pi ) );
		case 3: return keep( std::make_unique< crg::ImageBlit >( fp, c, rg, so, se, dof, de, filter, ru, pi ) );
		default: return keep( std::make_unique< crg::ImageCopy >( fp, c, rg, se, fin, ru, pi ) );
		}
	} );
	auto cb = VkCommandBuffer( 0x7777 );
	std::vector< Rec > e;
	auto b1 = buffers( rng, 0x9000, inst ), b2 = buffers( rng, 0xA000, inst );
	auto bat = [&]( crg::VkBufferArray const & a ){ return H( a.size() == 1 ? a[0] : a[index] ); };
	VkDeviceSize o1 = rng.below( 40 ), o2 = rng.below( 40 );
	auto im = [&]( crg::ImageViewId v ){ return H( cache.createImage( v.data->image ) ); };
	if ( kind == 0 )
	{
		p.addTransferInputBuffer( { b1, "b1" }, o1, 200 );
		p.addTransferOutputBuffer( { b2, "b2" }, o2, 200 );
		Rec r{ "vkCmdCopyBuffer", {} };
		r( "cb", H( cb ) )( "src", bat( b1 ) )( "dst", bat( b2 ) )( "srcOffset", o1 + at0 )( "dstOffset", o2 + at0 )( "size", size );
		e.push_back( r );
	}
	else if ( kind < 3 )
	{
		auto v = views( g, rng, "v", inst );
		if ( kind == 1 ) { p.addTransferInputBuffer( { b1, "b1" }, 0, 200 ); p.addTransferOutputView( v.a ); }
		else { p.addTransferInputView( v.a ); p.addTransferOutputBuffer( { b1, "b1" }, 0, 200 ); }
		auto w = v.a[v.at( index )];
		Rec r{ kind == 1 ? "vkCmdCopyBufferToImage" : "vkCmdCopyImageToBuffer", {} };
		if ( kind == 1 ) r( "cb", H( cb ) )( "src", bat( b1 ) )( "dst", im( w ) )( "dstLayout", VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
		else r( "cb", H( cb ) )( "src", im( w ) )( "srcLayout", VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL )( "dst", bat( b1 ) );
		auto & s = w.data->info.subresourceRange;
		VkBufferImageCopy c{ 0, 0, 0, { s.aspectMask, s.baseMipLevel, s.baseArrayLayer, s.layerCount }, so, se };
		bic( r, c );
		e.push_back( r );
	}
	else
	{
		uint32_t pairs = kind == 3 ? 1 : rng.range( 1, 3 );
		for ( uint32_t k = 0; k < pairs; ++k )
		{
			auto s = views( g, rng, "s" + std::to_string( k ) + "_", inst ), d = views( g, rng, "d" + std::to_string( k ) + "_", inst );
			p.addTransferInputView( s.a );
			p.addTransferOutputView( d.a );
			auto sv = s.a[s.at( index )], dv = d.a[d.at( index )];
			Rec r{ kind == 3 ? "vkCmdBlitImage" : "vkCmdCopyImage", {} };
			r( "cb", H( cb ) )( "src", im( sv ) )( "srcLayout", VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL )( "dst", im( dv ) )( "dstLayout", VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
			auto end = []( VkOffset3D o, VkExtent3D x ){ return VkOffset3D{ o.x + int32_t( x.width ), o.y + int32_t( x.height ), o.z + int32_t( x.depth ) }; };
			if ( kind == 3 )
			{
				r( "filter", filter );
				sub( r, "s", sv ); off( r, "s0", so ); off( r, "s1", end( so, se ) );
				sub( r, "d", dv ); off( r, "d0", dof ); off( r, "d1", end( dof, de ) );
			}
			else
			{
				sub( r, "s", sv ); off( r, "s0", VkOffset3D{} );
				sub( r, "d", dv ); off( r, "d0", VkOffset3D{} );
				ext( r, "e", se );
			}
			e.push_back( r );
		}
	}
	auto rg = g.compile( dev.ctx );
	crg::RecordContext rc{ cache };
	world().trace.clear();
	pass->recordCurrentInto( rc, cb );
	cx.eq( commands( false ), e, "transfer commands" );
	if ( kind == 4 && fin != VK_IMAGE_LAYOUT_UNDEFINED )
		for ( size_t k = 1; k < p.images.size(); k += 2 )
			cx.eq( rc.getLayoutState( p.images[k].view( index ) ).layout, fin, "final layout of the destination" );
}
CASE( transfer_actions, 400 )
{
	Dev dev;
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	crg::ContextResourcesCache cache{ handler, dev.ctx };
	crg::RecordContext rc{ cache };
	uint32_t kind = rng.below( 4 );
	cx.note( "kind", kind );
	auto fmt = kind >= 2 ? rng.pick( { VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_S8_UINT } ) : VK_FORMAT_R8G8B8A8_UNORM;
	cx.note( "format", fmt );
	auto s = views( g, rng, "s", 1 ).a[0], d = views( g, rng, "d", 1, fmt ).a[0];
	auto cb = VkCommandBuffer( 0x7777 );
	VkOffset2D so{ int32_t( rng.below( 9 ) ), int32_t( rng.below( 9 ) ) }, dof{ int32_t( rng.below( 9 ) ), int32_t( rng.below( 9 ) ) };
	VkExtent2D se{ rng.range( 1, 20 ), rng.range( 1, 20 ) }, de{ rng.range( 1, 20 ), rng.range( 1, 20 ) };
	VkFilter filter = rng.pick( { VK_FILTER_LINEAR, VK_FILTER_NEAREST } );
	VkImageLayout fin = rng.pick( { VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL } );
	VkClearValue value{};
	bool ds = depthFmt( fmt ) || stencilFmt( fmt );
	if ( ds ) value.depthStencil = { 0.25f, rng.below( 256 ) }; else for ( auto & x : value.color.uint32 ) x = rng.any32();
	auto im = [&]( crg::ImageViewId v ){ return H( cache.createImage( v.data->image ) ); };
	im( s ); im( d );
	std::map< uint32_t, crg::LayoutState > known;
	for ( auto v : { s, d } ) if ( rng.flip() ) { auto st = lstate( rng.pick( { VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL } ) ); rc.setLayoutState( v, st ); known[v.id] = st; }
	std::vector< Rec > e;
	auto barrier = [&]( crg::ImageViewId v, VkImageLayout l )
	{
		auto from = known.count( v.id ) ? known[v.id] : lstate( VK_IMAGE_LAYOUT_UNDEFINED ), w = lstate( l );
		if ( from.layout == w.layout && from.state.pipelineStage == w.state.pipelineStage ) return;
		auto r = v.data->info.subresourceRange;
		if ( depthFmt( v.data->info.format ) && stencilFmt( v.data->info.format ) ) r.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
		Rec b{ "vkCmdPipelineBarrier:image", {} };
		b( "cb", H( cb ) )( "srcStage", from.state.pipelineStage )( "dstStage", w.state.pipelineStage )( "flags", VK_DEPENDENCY_BY_REGION_BIT )( "srcAccess", from.state.access )( "dstAccess", w.state.access )( "oldLayout", from.layout )( "newLayout", w.layout )( "srcQ", VK_QUEUE_FAMILY_IGNORED )( "dstQ", VK_QUEUE_FAMILY_IGNORED )( "image", im( v ) );
		range( b, r );
		e.push_back( b );
		known[v.id] = w;
	};
	if ( kind < 2 )
	{
		barrier( s, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL );
		barrier( d, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
		Rec r{ kind ? "vkCmdBlitImage" : "vkCmdCopyImage", {} };
		r( "cb", H( cb ) )( "src", im( s ) )( "srcLayout", VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL )( "dst", im( d ) )( "dstLayout", VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
		if ( kind )
		{
			r( "filter", filter );
			auto end = []( VkOffset2D o, VkExtent2D x ){ return VkOffset3D{ o.x + int32_t( x.width ), o.y + int32_t( x.height ), 1 }; };
			sub( r, "s", s, 1 ); off( r, "s0", { so.x, so.y, 0 } ); off( r, "s1", end( so, se ) );
			sub( r, "d", d, 1 ); off( r, "d0", { dof.x, dof.y, 0 } ); off( r, "d1", end( dof, de ) );
		}
		else
		{
			sub( r, "s", s, 1 ); off( r, "s0", VkOffset3D{} );
			sub( r, "d", d, 1 ); off( r, "d0", VkOffset3D{} );
			ext( r, "e", { se.width, se.height, 1 } );
		}
		e.push_back( r );
	}
	else
	{
		barrier( d, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
		Rec r{ ds ? "vkCmdClearDepthStencilImage" : "vkCmdClearColorImage", {} };
		r( "cb", H( cb ) )( "image", im( d ) )( "layout", VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL )( "n", 1 );
		if ( ds ) r( "depth", fbits( value.depthStencil.depth ) )( "stencil", value.depthStencil.stencil );
		else r( "v0", value.color.uint32[0] )( "v1", value.color.uint32[1] )( "v2", value.color.uint32[2] )( "v3", value.color.uint32[3] );
		range( r, d.data->info.subresourceRange );
		e.push_back( r );
	}
	if ( fin != VK_IMAGE_LAYOUT_UNDEFINED ) barrier( d, fin );
	crg::RecordContext::ImplicitAction act;
	if ( kind == 0 ) act = crg::RecordContext::copyImage( s, d, se, fin );
	else if ( kind == 1 ) act = crg::RecordContext::blitImage( s, d, so, se, dof, de, filter, fin );
	else if ( kind == 2 ) act = crg::RecordContext::clearAttachment( d, value, fin );
	else
	{
		auto & p = g.createPass( "p", noRun() );
		if ( ds && depthFmt( fmt ) ) p.addOutputDepthView( d, value ); else if ( ds ) p.addOutputStencilView( d, value ); else p.addOutputColourView( d, value );
		act = crg::RecordContext::clearAttachment( p.images.front(), fin );
	}
	world().trace.clear();
	act( rc, cb, 0 );
	cx.eq( commands( true ), e, "what the action records" );
}
