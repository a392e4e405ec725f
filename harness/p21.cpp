// What recording a pass puts into the command buffer
#include "graphs.hpp"
#include <RenderGraph/FramePassTimer.hpp>
using namespace h;
namespace
{
	constexpr auto bottom = VkPipelineStageFlags( VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT );
	enum Kind { Sampled, InStorage, OutStorage, ClearStorage, InOutStorage, InTransfer, OutTransfer, InOutTransfer, ClearTransfer, Implicit, Colour, KindCount };
	struct Use { Kind k; crg::ImageViewId v; VkImageLayout wanted; VkImage img; VkFormat f; };
	enum BKind { Uniform, BIn, BOut, BClear, BInOut, BTIn, BTOut, BTInOut, BImplicit, BKindCount };
	struct BUse { BKind k; VkBuffer b; VkDeviceSize o, s; crg::AccessState wanted; };
	bool reads( Kind k ){ return k == Sampled || k == InStorage || k == InOutStorage || k == InTransfer || k == InOutTransfer || k == ClearTransfer || k == Implicit; }
	bool clears( Kind k ){ return k == ClearStorage || k == ClearTransfer; }
	crg::LayoutState needed( Use const & u, bool compute )
	{
		VkPipelineStageFlags sh = compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
		switch ( u.k )
		{
		case Sampled: return { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, { VK_ACCESS_SHADER_READ_BIT, sh } };
		case InStorage: return { VK_IMAGE_LAYOUT_GENERAL, { VK_ACCESS_SHADER_READ_BIT, sh } };
		case OutStorage: case ClearStorage: return { VK_IMAGE_LAYOUT_GENERAL, { VK_ACCESS_SHADER_WRITE_BIT, sh } };
		case InOutStorage: return { VK_IMAGE_LAYOUT_GENERAL, { VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT, sh } };
		case InTransfer: return { VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, { VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } };
		case OutTransfer: return { VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } };
		case InOutTransfer: case ClearTransfer: return { VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, { VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } };
		default: return lstate( u.wanted );
		}
	}
	// the commands recorded so far, without names of debug blocks
	std::vector< Rec > recorded()
	{
		std::vector< Rec > r;
		for ( auto & c : world().trace ) if ( c.fn == "record" || c.fn == "init" || c.fn == "action" || c.fn == "implicit" || c.fn == "vkCmdWriteTimestamp" || c.fn.rfind( "vkCmdPipelineBarrier", 0 ) == 0 || c.fn == "vkCmdClearColorImage" || c.fn == "vkCmdClearDepthStencilImage" || c.fn == "vkCmdFillBuffer" ) r.push_back( c );
		for ( auto & c : r ) if ( c.fn == "vkCmdWriteTimestamp" ) c = Rec{ "timestamp", {} };
		return r;
	}
}
CASE( record_pass, 600 )
{
	bool separate = rng.flip();
	Dev dev{ separate };
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	PassCfg first, second;
	first.enabled = rng.flip();
	second.enabled = rng.chance( 7, 8 );
	second.compute = rng.flip();
	second.ru.maxPassCount = rng.range( 1, 3 );
	second.ru.resettable = rng.flip();
	second.index = rng.below( second.ru.maxPassCount );
	first.ru.maxPassCount = second.ru.maxPassCount;
	cx.note( "separate", separate ); cx.note( "first enabled", first.enabled ); cx.note( "enabled", second.enabled ); cx.note( "compute", second.compute ); cx.note( "index", second.index );
	auto inst = second.ru.maxPassCount;
	uint32_t ni = rng.below( 5 ), nb = rng.below( 4 );
	std::vector< Use > uses; std::vector< BUse > buses;
	std::vector< crg::ImageViewIdArray > views; std::vector< crg::VkBufferArray > bufs;
	static VkFormat const fmts[]{ VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32G32B32A32_SFLOAT, VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_S8_UINT };
	for ( uint32_t k = 0; k < ni; ++k )
	{
		Use u{ Kind( rng.below( KindCount ) ), {}, rng.pick( { VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL } ), {}, u.k == Colour ? VK_FORMAT_R8G8B8A8_UNORM : fmts[rng.below( 5 )] };
		if ( u.k == Colour ) u.f = VK_FORMAT_R8G8B8A8_UNORM;
		crg::ImageViewIdArray a;
		for ( uint32_t j = 0; j < ( rng.flip() ? 1u : inst ); ++j )
		{
			if ( j && a.empty() ) break;
			auto n = std::to_string( k ) + "_" + std::to_string( j );
			uint32_t levels = rng.range( 1, 3 ), layers = rng.range( 1, 3 );
			auto i = img2D( g, "i" + n, u.f, levels, layers );
			uint32_t l = rng.below( levels ), y = rng.below( layers );
			a.push_back( view2D( g, "v" + n, i, l, rng.range( 1, levels - l ), y, rng.range( 1, layers - y ) ) );
		}
		if ( a.size() != 1 && a.size() != inst ) a.resize( 1 );
		views.push_back( a );
		u.v = a.size() == 1 ? a[0] : a[second.index];
		uses.push_back( u );
		cx.in << "[use" << k << " kind" << u.k << " fmt" << u.f << " wanted" << u.wanted << " views" << a.size() << "] ";
	}
	for ( uint32_t k = 0; k < nb; ++k )
	{
		BUse u{ BKind( rng.below( BKindCount ) ), {}, rng.flip() ? 0u : rng.below( 1000 ), rng.chance( 1, 3 ) ? VK_WHOLE_SIZE : VkDeviceSize( rng.range( 1, 1000 ) ), { 1u << rng.below( 8 ), 1u << rng.below( 8 ) } };
		crg::VkBufferArray a;
		bool many = rng.flip();
		for ( uint32_t j = 0; j < ( many ? inst : 1u ); ++j ) a.push_back( VkBuffer( uint64_t( 0x9000 + k * 16 + j ) ) );
		bufs.push_back( a );
		u.b = a.size() == 1 ? a[0] : a[second.index];
		buses.push_back( u );
		cx.in << "[buf" << k << " kind" << u.k << " " << u.o << "+" << u.s << "] ";
	}
	auto mark = []( std::string const & fn, uint64_t id ){ return [fn, id]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i ){ rec( fn.c_str() )( "id", id )( "cb", H( cb ) )( "index", i ); }; };
	std::set< uint32_t > implicits;
	for ( uint32_t k = 0; k < ni; ++k ) if ( rng.flip() ) { first.ru.implicitAction( uses[k].v, mark( "implicit", k ) ); implicits.insert( uses[k].v.id ); }
	uint32_t pre = rng.below( 3 ), post = rng.below( 3 );
	for ( uint32_t k = 0; k < pre; ++k ) second.ru.prePassAction( mark( "action", 100 + k ) );
	for ( uint32_t k = 0; k < post; ++k ) second.ru.postPassAction( mark( "action", 200 + k ) );
	auto & p1 = g.createPass( "p1", runWith( first, 1 ) );
	auto out = view2D( g, "out", img2D( g, "iout" ) );
	p1.addOutputColourView( out );
	auto & p2 = g.createPass( "p2", runWith( second, 2 ) );
	p2.addInOutColourView( out );
	p2.addDependency( p1 );
	for ( uint32_t k = 0; k < ni; ++k )
	{
		auto & a = views[k];
		switch ( uses[k].k )
		{
		case Sampled: p2.addSampledView( a, k ); break;
		case InStorage: p2.addInputStorageView( a, k ); break;
		case OutStorage: p2.addOutputStorageView( a, k ); break;
		case ClearStorage: p2.addClearableOutputStorageView( a, k ); break;
		case InOutStorage: p2.addInOutStorageView( a, k ); break;
		case InTransfer: p2.addTransferInputView( a ); break;
		case OutTransfer: p2.addTransferOutputView( a ); break;
		case InOutTransfer: p2.addTransferInOutView( a ); break;
		case ClearTransfer: p2.addTransferInOutView( a, crg::Attachment::Flag::Clearable ); break;
		case Implicit: p2.addImplicitColourView( a, uses[k].wanted ); break;
		default: p2.addOutputColourView( a ); break;
		}
	}
	for ( uint32_t k = 0; k < nb; ++k )
	{
		auto & u = buses[k]; crg::Buffer b{ bufs[k], "b" };
		switch ( u.k )
		{
		case Uniform: p2.addUniformBuffer( b, 20 + k, u.o, u.s ); break;
		case BIn: p2.addInputStorageBuffer( b, 20 + k, u.o, u.s ); break;
		case BOut: p2.addOutputStorageBuffer( b, 20 + k, u.o, u.s ); break;
		case BClear: p2.addClearableOutputStorageBuffer( b, 20 + k, u.o, u.s ); break;
		case BInOut: p2.addInOutStorageBuffer( b, 20 + k, u.o, u.s ); break;
		case BTIn: p2.addTransferInputBuffer( b, u.o, u.s ); break;
		case BTOut: p2.addTransferOutputBuffer( b, u.o, u.s ); break;
		case BTInOut: p2.addTransferInOutBuffer( b, u.o, u.s ); break;
		default: p2.addImplicitBuffer( b, u.o, u.s, u.wanted ); break;
		}
	}
	auto index = second.index;
	second.index = rng.below( inst );
	bool initialised = second.index == index;
	auto rg = g.compile( dev.ctx );
	second.index = index;
	crg::ContextResourcesCache cache{ handler, dev.ctx };
	crg::RecordContext rc{ cache };
	std::map< uint32_t, crg::LayoutState > known, given;
	for ( auto & u : uses )
	{
		u.img = cache.createImage( u.v.data->image );
		if ( rng.flip() ) { auto s = lstate( rng.pick( { VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL } ) ); rc.setLayoutState( u.v, s ); known[u.v.id] = s; cx.note( "known", s.layout ); }
		else if ( rng.flip() ) { auto s = lstate( rng.pick( { VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL } ) ); if ( rng.flip() ) s.state = { 1u << rng.below( 8 ), 1u << rng.below( 8 ) }; g.addInput( u.v, s ); given[u.v.id] = s; cx.note( "given", s.layout ); }
	}
	std::map< uint64_t, crg::AccessState > bknown;
	for ( auto & u : buses ) if ( rng.flip() ) { crg::AccessState s{ 1u << rng.below( 8 ), rng.flip() ? VkPipelineStageFlags( VK_PIPELINE_STAGE_TRANSFER_BIT ) : VkPipelineStageFlags( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) }; rc.setAccessState( u.b, { u.o, u.s }, s ); bknown[H( u.b )] = s; }
	auto cb = VkCommandBuffer( 0x7777 );
	first.pass->recordCurrentInto( rc, cb );
	for ( uint32_t round = 0; round < 2; ++round )
	{
		cx.note( "round", round );
		std::vector< Rec > e;
		if ( second.enabled )
		{
			if ( !initialised ) { initialised = true; Rec r{ "init", {} }; r( "pass", 2 )( "index", second.index ); e.push_back( r ); }
			e.push_back( Rec{ "timestamp", {} } );
			for ( uint32_t k = 0; k < ni; ++k )
			{
				auto & u = uses[k];
				if ( implicits.erase( u.v.id ) && !first.enabled ) { Rec r{ "implicit", {} }; r( "id", k )( "cb", H( cb ) )( "index", second.index ); e.push_back( r ); }
				if ( u.k == Colour ) continue;
				auto want = needed( u, second.compute );
				auto barrier = [&]( VkImageLayout init, crg::LayoutState const & w )
				{
					auto it = known.find( u.v.id );
					auto from = it == known.end() || it->second.layout == VK_IMAGE_LAYOUT_UNDEFINED ? lstate( init ) : it->second;
					if ( w.layout == VK_IMAGE_LAYOUT_UNDEFINED || ( from.layout == w.layout && from.state.pipelineStage == w.state.pipelineStage ) ) return;
					auto r = u.v.data->info.subresourceRange;
					if ( !separate && depthFmt( u.f ) && stencilFmt( u.f ) ) r.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
					Rec b{ "vkCmdPipelineBarrier:image", {} };
					b( "cb", H( cb ) )( "srcStage", from.state.pipelineStage )( "dstStage", w.state.pipelineStage )( "flags", VK_DEPENDENCY_BY_REGION_BIT )( "srcAccess", from.state.access )( "dstAccess", w.state.access )( "oldLayout", from.layout )( "newLayout", w.layout )( "srcQ", VK_QUEUE_FAMILY_IGNORED )( "dstQ", VK_QUEUE_FAMILY_IGNORED )( "image", H( u.img ) );
					range( b, r );
					e.push_back( b );
					known[u.v.id] = w;
				};
				VkImageLayout init = VK_IMAGE_LAYOUT_UNDEFINED;
				if ( reads( u.k ) )
				{
					if ( !known.count( u.v.id ) && given.count( u.v.id ) ) known[u.v.id] = given[u.v.id];
					if ( known.count( u.v.id ) ) init = known[u.v.id].layout;
				}
				if ( clears( u.k ) )
				{
					barrier( init, lstate( VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ) );
					bool ds = depthFmt( u.f ) || stencilFmt( u.f );
					Rec r{ ds ? "vkCmdClearDepthStencilImage" : "vkCmdClearColorImage", {} };
					r( "cb", H( cb ) )( "image", H( u.img ) )( "layout", VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL )( "n", 1 );
					if ( ds ) r( "depth", 0 )( "stencil", 0 ); else r( "v0", 0 )( "v1", 0 )( "v2", 0 )( "v3", 0 );
					range( r, u.v.data->info.subresourceRange );
					e.push_back( r );
					init = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
				}
				barrier( init, want );
			}
			for ( auto & u : buses )
			{
				if ( u.k == Uniform ) continue;
				VkPipelineStageFlags sh = second.compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, tr = VK_PIPELINE_STAGE_TRANSFER_BIT;
				crg::AccessState want = u.wanted;
				switch ( u.k )
				{
				case BIn: want = { VK_ACCESS_SHADER_READ_BIT, sh }; break;
				case BOut: case BClear: want = { VK_ACCESS_SHADER_WRITE_BIT, sh }; break;
				case BInOut: want = { VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT, sh }; break;
				case BTIn: want = { VK_ACCESS_TRANSFER_READ_BIT, tr }; break;
				case BTOut: want = { VK_ACCESS_TRANSFER_WRITE_BIT, tr }; break;
				case BTInOut: want = { VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT, tr }; break;
				default: break;
				}
				auto barrier = [&]( crg::AccessState const & w )
				{
					auto it = bknown.find( H( u.b ) );
					crg::AccessState from = it == bknown.end() ? crg::AccessState{ 0u, bottom } : it->second;
					if ( from.access == w.access && from.pipelineStage == w.pipelineStage ) return;
					Rec b{ "vkCmdPipelineBarrier:buffer", {} };
					b( "cb", H( cb ) )( "srcStage", from.pipelineStage )( "dstStage", w.pipelineStage )( "flags", VK_DEPENDENCY_BY_REGION_BIT )( "srcAccess", from.access )( "dstAccess", w.access )( "srcQ", VK_QUEUE_FAMILY_IGNORED )( "dstQ", VK_QUEUE_FAMILY_IGNORED )( "buffer", H( u.b ) )( "offset", u.o )( "size", u.s );
					e.push_back( b );
					bknown[H( u.b )] = w;
				};
				if ( u.k == BClear )
				{
					barrier( { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } );
					Rec r{ "vkCmdFillBuffer", {} };
					r( "cb", H( cb ) )( "buffer", H( u.b ) )( "offset", ( u.o + 3 ) / 4 * 4 )( "size", u.s == VK_WHOLE_SIZE ? u.s : ( u.s + 3 ) / 4 * 4 )( "data", 0 );
					e.push_back( r );
				}
				barrier( want );
			}
			auto act = [&]( std::string const & fn, uint64_t id ){ Rec r{ fn, {} }; r( "id", id )( "cb", H( cb ) )( "index", second.index ); e.push_back( r ); };
			for ( uint32_t k = 0; k < pre; ++k ) act( "action", 100 + k );
			Rec r{ "record", {} }; r( "pass", 2 )( "cb", H( cb ) )( "index", second.index ); e.push_back( r );
			for ( uint32_t k = 0; k < post; ++k ) act( "action", 200 + k );
			e.push_back( Rec{ "timestamp", {} } );
		}
		world().trace.clear();
		auto got = second.pass->recordCurrentInto( rc, cb );
		cx.eq( got, second.enabled ? second.index : crg::RunnablePass::InvalidIndex, "index returned" );
		cx.eq( recorded(), e, "what is recorded" );
		for ( auto & u : uses ) if ( known.count( u.v.id ) ) cx.require( same( rc.getLayoutState( u.v ), known[u.v.id] ), "tracked state afterwards is " + show( rc.getLayoutState( u.v ) ) + " instead of " + show( known[u.v.id] ) );
	}
}
